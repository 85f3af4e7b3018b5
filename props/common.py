CT = ['cbmc/goto-cc/goto-instrument 6.11', 'CaDiCaL (in cbmc)', 'gcc and cbmc agree on the C semantics (x86_64)']
