"""what every proof rests on, per property (for the evidence files)"""
ENGINE = ['pyvc, the verification-condition generator in /verif/pyvc (symbolic execution of the AST of the functions '
          'in /repo, read on every run; integers are mathematical as in Python)', 'z3 4.x/5.x (python3-vt)',
          'CPython semantics of the modelled subset']
A_STRUCT = 'struct, int, str/bytes operations behave as documented (pyvc/models.py)'
A_BLOSC = ('blosc: compress(x) returns at least 16 bytes whose header records its length and len(x); decompress(compress(x)) '
           '== x; decompress raises on bytes that are not a complete buffer; compress refuses illegal settings')
A_HASH = 'zlib.adler32/crc32 return 0..2**32-1, hashlib digests have their documented length'
A_JSON = 'json: loads(dumps(x)) is the JSON form of x; zlib.decompress(zlib.compress(x)) == x'
A_FILE = ('regular files and BytesIO: read(n) returns min(n, remaining) bytes, write writes all bytes at the position and '
          'overwrites, seek/tell are exact; files are shorter than 2**62 bytes; no other process changes them')
A_LOG = 'printing a message does not fail (stdout accepts it)'
A_ARGP = ('argparse: the options of one command line are parsed independently of each other; each option is found by running '
          'the real parser on all its finite values, and on sampled values for integers and file names')
A_NUMPY = ('numpy: descr_to_dtype(literal_eval(repr(d.descr))) == d for a structured dtype, descr_to_dtype(literal_eval(repr(d.str))) '
           '== d for any other; the memory of a C- (F-) contiguous array is its elements in C (F) order, ascontiguousarray / '
           'asfortranarray keep the elements, empty() gives memory of size*itemsize bytes; blosc.compress_ptr and decompress_ptr touch '
           'exactly the bytes their arguments and the chunk header announce; arrays are smaller than 2**62 bytes')
PER = {}
for _p, _a in {
    'C01': [A_STRUCT, A_BLOSC, A_HASH, A_FILE, A_LOG], 'C02': [A_STRUCT, A_BLOSC, A_JSON, A_HASH, A_FILE],
    'C03': [A_STRUCT, A_BLOSC, A_HASH, A_FILE, A_JSON], 'C04': [A_STRUCT, A_BLOSC, A_HASH, A_FILE],
    'C05': [A_STRUCT], 'C06': [A_STRUCT], 'C07': [A_STRUCT], 'C08': [A_STRUCT],
    'C09': [A_STRUCT, A_BLOSC, A_HASH, A_FILE], 'C10': [A_STRUCT, A_HASH, A_JSON, A_FILE],
    'C11': [A_STRUCT, A_BLOSC, A_HASH, A_FILE, A_JSON], 'C12': [A_STRUCT, A_BLOSC, A_HASH, A_FILE],
    'C13': [A_STRUCT, A_JSON, A_HASH, A_FILE], 'C14': [A_STRUCT, A_JSON, A_HASH, A_FILE],
    'C15': [A_STRUCT, A_BLOSC, A_HASH, A_FILE, A_JSON, A_NUMPY], 'C16': [A_STRUCT, A_BLOSC, A_HASH, A_FILE, A_NUMPY],
    'C17': [A_STRUCT, A_BLOSC, A_HASH, A_FILE, A_JSON], 'C18': [A_STRUCT, A_FILE, A_ARGP],
    'C19': [A_FILE, A_ARGP, A_LOG], 'C20': [A_STRUCT, A_FILE, A_ARGP, A_LOG], 'C21': [A_STRUCT, A_HASH, A_JSON], 'C22': [A_STRUCT], 'C23': [A_STRUCT],
    'C24': [A_STRUCT, A_BLOSC, A_HASH, A_FILE], 'C25': [A_STRUCT], 'C26': [A_STRUCT, A_BLOSC, A_HASH, A_FILE]}.items():
    PER[_p] = _a


def base(prop):
    return ENGINE + PER.get(prop, [])


def assumptions(prop):
    return PER.get(prop, [])


LEVELS = {}
NOTES = {}


def level(prop):
    return LEVELS.get(prop, 'proof')


def note(prop):
    return NOTES.get(prop, '')


NOT_APPLICABLE = {}
TECH = {}


def technique(prop):
    return TECH.get(prop, 'contracts on the real Python functions, verification conditions by symbolic execution '
                          '(unbounded loops by inductive summaries), discharged by z3')


def level_note(prop):
    n = note(prop)
    return ((n + ' ') if n else '') + 'Proved for all inputs from the current source, assuming: ' + '; '.join(assumptions(prop)) + \
        '. A bounded concrete cross-check runs beside it and is not counted as proved.'
