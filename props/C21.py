from props.pycommon import *
LEVEL = 'proof'
TRUSTED = TRUSTED_PY
ASSUMPTIONS = [SHIM, FP, 'decode_packet, parse_ukhas_string, send_payload_summary, SondehubAmateurUploader, FSKDemodStats and the list functions are their contracts (C10-C20)', 'a sequence of at most two lines; the state kept between lines is the time of the next download, which the contract lists covers']


def jobs(tier):
    F = fns('uploader', 'main')
    return [PyJob(c, 'uploader', c, F) for c in ('main', 'lists', 'config')]
