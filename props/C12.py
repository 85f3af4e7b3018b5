from props.pycommon import *
LEVEL = 'proof'
TRUSTED = TRUSTED_PY
ASSUMPTIONS = [SHIM, FP, 'in the FEC contracts the C library is its contract (C02, C03, C04 discharge it); the native runs use the extension built from the current C sources', 'packet lengths for the symbols: 0, 1, 2, 3, 22, 32, 45, 47, 65, 96, 129; preambles of 0, 1, 8, 16 bytes']


def jobs(tier):
    C = fns('encoder', 'Encoder.create_horus_v2_packet')
    js = [PyJob(c, 'encoder', c, C, lib=True, must=['the packet ends with the checksum of its first 30 bytes']) for c in ('create_time', 'create_position', 'create_status', 'create_custom1', 'create_custom2')]
    js += [PyJob('create_refuse', 'encoder', 'create_refuse', C, lib=True),
           PyJob('fec', 'encoder', 'fec', fns('encoder', 'Encoder.horus_l2_encode_packet', 'Encoder.horus_l2_decode_packet', 'Encoder.get_num_tx_data_bytes'), lib=True, must=['the frame is the one the FEC encoder made of exactly the payload bytes', 'decoding returns what the FEC decoder made of exactly the received bytes']),
           PyJob('fec_types', 'encoder', 'fec_types', fns('encoder', 'Encoder.horus_l2_encode_packet', 'Encoder.horus_l2_decode_packet'), lib=True),
           PyJob('coded', 'encoder', 'coded', C, lib=True, must=['the coded packet is the frame of the uncoded packet']),
           PyJob('symbols', 'encoder', 'symbols', fns('encoder', 'Encoder.bytes_to_4fsk_symbols', 'Encoder.bytes_to_onebitperbyte'), lib=True, must=['symbols are the bit pairs, most significant first', 'one byte per bit, most significant first']),
           PyJob('symbols_default', 'encoder', 'symbols_default', fns('encoder', 'Encoder.bytes_to_4fsk_symbols', 'Encoder.bytes_to_onebitperbyte'), lib=True)]
    return js
