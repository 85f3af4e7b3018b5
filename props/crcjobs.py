from vc.crun import Job

def crc_jobs():
    js = []
    for lo, hi in ((0, 100), (100, 150), (150, 190), (190, 225), (225, 256)):
        js.append(Job('crc_frame_%d' % lo, 'crc.c', ['horus_l2.c', 'golay23.c'], dfcc=False, checks=True, defs=['-DJ_FRAME', '-DLO=%d' % lo, '-DHI=%d' % hi],
                      must=['pointer_dereference'], functions=['horus_l2_gen_crc16']))
    for lo, hi in ((0, 60), (60, 110), (110, 150), (150, 180), (180, 210), (210, 235), (235, 255)):
        js.append(Job('crc_step_%d' % lo, 'crc.c', ['horus_l2.c', 'golay23.c'], dfcc=False, defs=['-DLO=%d' % lo, '-DHI=%d' % hi], native_defs=['-UHI', '-DHI=254'], functions=['horus_l2_gen_crc16']))
    return js
