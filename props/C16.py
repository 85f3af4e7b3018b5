from props.pycommon import *
LEVEL = 'proof'
TRUSTED = TRUSTED_PY
ASSUMPTIONS = [SHIM, 'queue.Queue is correct under concurrency', 'at most three records per batch and the listed number of upload cycles']


def jobs(tier):
    N = {'upload': 'upload_telemetry', 'queue': 'process_queue', 'add': 'add', 'position': 'upload_station_position'}
    return [PyJob(c, 'uploads', c, fns('sondehubamateur', 'SondehubAmateurUploader.' + f)) for c, f in N.items()]
