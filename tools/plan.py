"""Which harnesses decide which property."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUDGET = dict(quick=420, thorough=3000)
ALL = 'u8 u32 u96 sd str cs dyn dst dd s4 s12 siD zst'
MID = 'u8 u32 sd str dyn dst dd s4 siD zst'
RES = 'u8 u32 sd str dyn dst dd s4 s12 zst'
U = 'u8 u32 dyn dst'
KS = 'k0 k1 k4 k8 k12 k32 kD kZ'
SZ = 's4 s12 siD zst'
CM = 'u8 u32 sd str cs dyn dd s4 siD dyndd ddsi sidyn zst'

ASSUMPTIONS = [
    'the LLVM IR that the pinned compiler emits without optimisation passes (MIR inlining and SROA only) means what the optimised program means',
    'standard-library functions that exist only as machine code are replaced by Rust stand-ins (harness/src/stdm.rs) or engine models of their documented behaviour',
    'the allocator refuses requests above 2^28 bytes and places live blocks disjointly, aligned as requested, at arbitrary addresses below 2^47',
    'one thread; the target is x86_64 with 64-bit pointers',
]
BOUNDS = [
    'element sizes 0..2^20 bytes, all values at once; contents arbitrary; one arbitrary byte of every element is compared',
    'alignments of trait objects: 1, 4, 1024 in starting states, in longer histories fixed per element number (4, 1, 16, 2)',
    'indices, requested amounts and iterator skip counts: the full 64-bit range unless a bound is part of the harness',
    'element families: [u8], [u32], [[u32; 3]], [D], str, CStr, dyn Trait of any size and alignment, two custom unsized types, u32, [u32; 3], D, () (D: counted destructor)',
    'vectors of at most 2 arbitrary elements (3 in iteration and realignment) before the operations under test; 1 to 3 operations (4 in thorough); one operation (two in thorough) on six elements; seven elements compared, hashed, cloned, converted, serialised and printed',
    'quick tier: builds with debug assertions, and a selection (`REL` in tools/plan.py) without them; thorough tier: everything both ways',
]


def note(prop):
    p = PLAN[prop]
    return ('every value within: element sizes 0..2^20, all contents, full-range indices and amounts, at most 2-3 elements before 1-3 operations, families %s; '
            'outside: longer histories, larger elements, allocations above 2^28 bytes, other threads' % ' '.join(sorted({f for fs in p['h'].values() for f in fs.split()})))


def empl(c):
    h = {'box': ALL + ' siZ os pa', 'self': 's4 s12 siD siZ zst', 'get': 's4 s12 siD siZ zst', 'vec': 'u8 u32 u96 sd', 'slice': 'u8 u32 u96', 'iter': 's4 siD siZ zst',
         'vext': 's4 siD siZ zst', 'len': 's4 s12 siD siZ zst', 'val': 'u8 u32 sd str cs dyn dst dd s4 siD siZ zst', 'valv': 'u8 u32 sd str cs dyn dst dd s4 siD siZ zst', 'into': 'u8 u32 u96 sd sz zsl'}
    h.update((x, '') for x in 'clone str cstr os path arr arr3 arr7 arr0 uns vecz boxz stru8 string intos cstring osstring pathbuf mac hand'.split())
    return {c + k: v for k, v in h.items()}


PLAN = {
    'C01': dict(h={'push': ALL + ' zsl', 'pushw': ALL, 'ins': ALL, 'insw': ALL, 'uns': U, 'add3': MID, 'long': MID},
                deep={'add4': 'u8 u32 str dyn dst s4'}),
    'C02': dict(h={'rem': ALL, 'remp': 'u8 u32 sd str dyn dst dd s4 siD', 'rem2': MID, 'remadd': MID, 'remoth': MID, 'long': MID}),
    'C03': dict(h={'it0': MID, 'it1': MID, 'it2': MID, 'itm1': MID, 'itm2': MID, 'itw': MID, 'iter_slice': ''},
                deep={'it3': 'u8 dyn dst dd s4 zst', 'itm3': 'u8 dyn dst dd s4 zst'}),
    'C04': dict(h={'iout': MID, 'iin': MID, 'iuns': U}),
    'C05': dict(h={'drop': 'u8 u32 u96 sd str cs dyn dst dd s4 siD zst', 'push': MID, 'insw': MID, 'remp': 'u8 u32 sd str dyn dst dd s4 siD', 'iin': MID, 'mix2': MID, 'long': MID,
                   'remoth': MID, 'remadd': MID, 'uns': U, 'unsz': 'u8 u32 dyn dst dynz dyna sdu', 'fvec': 's4 s12 siD zst', 'clone': 's4 s12 zst drop', 'ext': 'u8 sd dst dd s4 zst',
                   'exth': 'u8 sd dyn dd s4 siD zst', 'macu': 'u8 u32 dyn dst dynz dyna sdu', 'macv': 'u8 dyn dd s4', 'shrr': RES, 'res2': 'u8 dd s4', 'rea2': 'dd dst', 'it1': 'u8 dst s4 zst',
                   'itm1': 'u8 dst s4 zst', 'itw': MID, 'cto': 'u32 dd s4'},
                deep={'mix3': MID, 'shr': RES, 'res': RES, 'rea3': 'dyn dst dd', 'it2': MID}),
    'C06': dict(h={'drop': 'sd dyn dd siD u32 s4 zst', 'rem': 'sd dyn dd siD u8 s4', 'rem2': 'sd dyn dd siD', 'remoth': 'sd dyn dd siD u8 s4', 'mix2': 'sd dyn dd siD u8 s4 zst', 'iout': 'sd dyn dd siD',
                   'long': 'sd dyn dd siD', 'add3': 'sd dyn dd siD', 'remadd': 'sd dyn dd siD', 'unsz': 'sdu dyn u8 dynz dyna', 'fvec': 's4 siD zst', 'clone': 'drop s4', 'ext': 'sd dd siD u8',
                   'exth': 'sd dyn dd siD u8', 'macv': 'sd dyn dd siD', 'macu': 'dyn sdu', 'empty': 'sd dyn dd siD u8 s4', 'shrr': 'dd siD u8 s4', 'rea2': 'dd', 'iin': 'sd dyn dd siD',
                   'iuns': 'dyn', 'uns': 'dyn', 'cto': 'sd dd siD', 'wcap': 'sd dyn siD u8'},
                deep={'mix3': 'sd dyn dd siD', 'shr': 'dd siD', 'rea3': 'dd'}),
    'C07': dict(h={'res': ALL, 'res2': RES, 'wcap': ALL, 'grow': 'u8 u32 u96 sd str dyn dst dd s4 s12 zst'}),
    'C08': dict(h={'shr': ALL, 'shru': RES + ' siD', 'shrr': RES + ' siD'}),
    'C09': dict(h={'rea1': 'dyn dst dd', 'rea2': 'dyn dst dd', 'rea3': 'dyn dst dd'}, deep={'rea4': 'dst dd', 'rea5': 'dyn dst dd'}),
    'C10': dict(h={'big': 'u8 u32 u96 sd str dyn dst dd s4 s12 zst', 'big2': 'u8 u32 str dyn dst dd s4 s12 zst', 'fail': RES, 'failop': RES, 'fallb': 'u8 u32 sd str dyn dst dd s4 s12', 'bada': 'u8 str dyn dst dd s4 zst'}),
    'C11': dict(h={'padd': MID, 'proom': MID, 'prem': MID, 'pbomb': 'sd dyn dd siD', 'poth': MID, 'pdrop': 'sd dyn dd siD', 'pbox': 'u8 u32 sd str cs dyn dst dd s4 siD siZ zst',
                   'pwef': 'u8 sd dyn dd siD siZ', 'pext': 'u8 u32 sd dyn dst dd s4 siD zst', 'pcol': 'u8 u32 sd dyn dst dd s4 siD zst', 'piter': 's4 siD zst', 'pan_clone': '', 'pan_vclone': '', 'pan_arr': ''}),
    'C12': dict(h=dict(empl('e'), piter='s4 siD zst')),
    'C13': dict(h=empl('o')),
    'C14': dict(h={'ceq': CM, 'cpo': CM, 'cto': 'u8 u32 sd str cs dyn dd s4 siD zst', 'chash': 'u8 u32 sd str cs dyn dd s4 siD zst', 'cmpl': 's4 siD zst', 'hashl': 'sd dd s4 siD zst'}),
    'C15': dict(h={'fvecl': 's4 s12 siD zst', 'unszl': 'u8 u32 dyn dst dynz dyna sdu', 'clonel': 's4 s12 zst', 'fvec': 's4 s12 siD zst', 'unsz': 'u8 u32 dyn dst dynz dyna sdu', 'clone': 's4 s12 zst drop', 'ext': ALL.replace('u96 ', ''), 'exth': 'u8 sd dyn dd s4 siD zst',
                   'macv': ALL.replace('u96 ', ''), 'macu': 'u8 u32 dyn dst dynz dyna sdu', 'empty': ALL.replace('u96 ', '')}),
    'C16': dict(h={'siz1': KS, 'siz2': KS, 'push': SZ, 'insw': SZ, 'rem': SZ, 'remadd': 's4 siD zst', 'it1': 's4 siD zst', 'itm1': 's4 siD zst', 'res': SZ, 'shr': SZ, 'fvec': SZ,
                   'iout': 's4 siD zst', 'padd': 's4 siD zst', 'prem': 's4 siD zst', 'ext': SZ, 'ceq': 's4 siD zst', 'cto': 's4 siD zst', 'chash': 's4 siD zst', 'iter_slice': ''},
                deep={'it3': 's4 zst', 'mix3': 's4 siD zst'}),
    'C17': dict(h={'read': ALL, 'mix2': MID, 'rem': ALL, 'add3': MID, 'long': MID, 'push': ALL, 'remp': 'u8 u32 str dyn dst dd s4', 'remoth': 'u8 dyn dd s4 zst', 'iin': MID, 'iout': MID,
                   'unsz': 'u8 u32 dyn dst dynz dyna sdu', 'fvec': 's4 s12 siD zst', 'clone': 's4 s12 zst drop', 'ext': 'u8 u32 str dst dd s4 zst', 'exth': 'u8 dyn dd s4 zst', 'empty': ALL.replace('u96 ', ''),
                   'macv': 'u8 dyn dd s4', 'macu': 'u8 u32 dyn dst', 'wcap': ALL, 'shrr': RES, 'rea2': 'dd dst'},
                deep={'mix3': MID, 'shr': RES, 'res': RES}),
    'C18': dict(h={'ser': 'u8 u32 sd str dyn dd s4 s12 siD zst', 'serl': 'sd dd s4 s12 siD zst'}),
    'C19': dict(h={'dbg': 'sd dyn dd siD', 'dbgl': 'sd dd siD'}),
}


# Quick tier: what is also run against a build without debug assertions and overflow checks (an `assert!` that becomes a
# `debug_assert!`, or a checked addition that becomes `+`, only shows there).
REL = {
    'C01': {'ins': 'u8 dst s4', 'push': 'u8 dst s4'},
    'C02': {'rem': 'u8 dst s4'},
    'C03': {'it1': 'dst zst', 'itm1': 'dst'},
    'C04': {'iout': MID, 'iin': MID, 'iuns': U},
    'C05': {'iin': 'u8 dst s4', 'insw': 'u8 dst s4', 'drop': 'u8 dst s4', 'exth': 'u8 s4', 'clone': 's4'},
    'C06': {'drop': 'sd dd siD', 'rem': 'sd dd siD', 'exth': 'sd siD'},
    'C07': {'res': 's4 zst', 'wcap': 'u8 dst s4 zst', 'grow': 's4 zst'},
    'C08': {'shr': 'u8 s4 zst', 'shrr': 'u8 s4 zst'},
    'C09': {'rea2': 'dst dd'},
    'C10': {'big': 'u8 s4 zst', 'big2': 'u8 dst s4 zst', 'bada': 'u8 dst s4 zst', 'failop': 'u8 s4'},
    'C11': {'padd': 'u8 sd dst s4', 'prem': 'sd dst siD', 'pcol': 'sd siD', 'pext': 'sd siD'},
    'C12': {'eiter': 's4 siD zst', 'evec': 'u8 sd', 'eslice': 'u8 u32', 'evext': 's4', 'evecz': '', 'earr7': '', 'elen': 's4 s12', 'piter': 's4 siD', 'eget': 's4', 'eclone': ''},
    'C13': {'oiter': 's4 siD', 'ovec': 'u8 sd', 'oarr3': ''},
    'C15': {'ext': 'u8 s4', 'exth': 'u8 s4 zst', 'unsz': 'u8 dyn', 'fvec': 's4 zst', 'macv': 'u8 s4'},
    'C16': {'push': 's4 zst', 'rem': 's4', 'iout': 's4', 'res': 'zst'},
    'C17': {'read': 'u8 dst s4', 'unsz': 'u8 dyn'},
}


def expand(d):
    return ['%s_%s' % (h, f) if f else h for h, fs in d.items() for f in (fs.split() or [''])]


def harnesses(prop, tier):
    p = PLAN[prop]
    names = expand(p['h'])
    if tier == 'thorough':
        names += expand(p.get('deep', {}))
        return dict(dev=names, rel=names)
    rel = expand(REL.get(prop, {}))
    assert set(rel) <= set(names), (prop, set(rel) - set(names))
    return dict(dev=names, rel=rel) if rel else dict(dev=names)


def weights():
    f = os.path.join(HERE, 'tools', 'weights.json')
    return json.load(open(f)) if os.path.exists(f) else {}
