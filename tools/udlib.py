import ctypes, glob, os
SP='/opt/venv/lib/python3.12/site-packages'
lib=ctypes.CDLL(glob.glob(SP+'/cf_units.libs/libudunits2*')[0])
P=ctypes.c_void_p
for f,a,r in [('ut_read_xml',[ctypes.c_char_p],P),('ut_parse',[P,ctypes.c_char_p,ctypes.c_int],P),('ut_get_converter',[P,P],P),('cv_convert_double',[P,ctypes.c_double],ctypes.c_double),('ut_are_convertible',[P,P],ctypes.c_int),('ut_format',[P,ctypes.c_char_p,ctypes.c_size_t,ctypes.c_uint],ctypes.c_int),('ut_get_status',[],ctypes.c_int),('ut_compare',[P,P],ctypes.c_int),('ut_free',[P],None),('cv_free',[P],None),('ut_set_error_message_handler',[P],P)]:
    fn=getattr(lib,f); fn.argtypes=a; fn.restype=r
lib.ut_set_error_message_handler(ctypes.cast(lib.ut_ignore,P))
S=lib.ut_read_xml(glob.glob(SP+'/cf_units/etc/share/udunits2.xml')[0].encode())
def parse(s): return lib.ut_parse(S,s.encode(),2)
def conv(a,b,x):
    a=parse(a);b=parse(b)
    if not a or not b: return ('noparse',bool(a),bool(b))
    c=lib.ut_get_converter(a,b)
    if not c: return 'noconv'
    return lib.cv_convert_double(c,x)
def fmt(s):
    u=parse(s)
    if not u: return None
    b=ctypes.create_string_buffer(500)
    n=lib.ut_format(u,b,500,2|8) ; return b.value.decode()
