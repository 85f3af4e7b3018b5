from vc.crun import Job

def golay_jobs(cfgs=(('rt', ['-DRUN_TIME_TABLES']),), lemmas=True):
    js = []
    G = ['golay23.c']
    for cn, cd in cfgs:
        k = dict(repo_defs=cd, timeout=700)
        js.append(Job('golay_decode_' + cn, 'golay.c', G, enforce='golay23_decode', checks=True, defs=['-DJ_DECODE'], must=['postcondition'], functions=['golay23_decode', 'golay23_init', 'golay23_syndrome'], **k))
        js.append(Job('golay_encode_' + cn, 'golay.c', G, enforce='golay23_encode', defs=['-DJ_ENCODE'], must=['postcondition'], functions=['golay23_encode'], **k))
    k = dict(repo_defs=cfgs[0][1])
    js.append(Job('golay_syndrome', 'golay.c', G, enforce='golay23_syndrome', defs=['-DJ_SYNDROME'], must=['postcondition'], **k))
    js.append(Job('golay_count_errors', 'golay.c', G, enforce='golay23_count_errors', defs=['-DJ_COUNT'], must=['postcondition'], **k))
    if lemmas:
        for n in ('LINEAR', 'DIST', 'TRI'):
            js.append(Job('lemma_' + n.lower(), 'golay.c', [], dfcc=False, defs=['-DJ_LEMMA_' + n], native_sources=G, functions=['(lemma)'], **k))
        js.append(Job('golay_theorem', 'golay.c', [], dfcc=False, defs=['-DJ_THEOREM'], native_sources=G, functions=['(theorem over the contract of golay23_decode)'], **k))
    return js
