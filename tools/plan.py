"""What each check runs."""
import os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TYPES = ['u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize']
KANI_T = ['Kani 0.68 / CBMC 6.11 (with CaDiCaL), rustc\'s MIR and Kani\'s models of core and alloc']
PLAN = {
    'P01': dict(search='db', level='proof',
        kani=['ints::from_any::p01_'], kani_thorough=['ints::from_any::p01'], kani_settles='',
        kani_functions=['Integer::from(native) x12', 'native::try_from(Integer) x12'], trusted=KANI_T),
    'P02': dict(search='db', level='proof',
        kani=['ints::from_any::p02_'], kani_settles=r'From|Integer::[ui](8|16|32|64|128|size)$|Integer::ser$',
        kani_functions=['Integer::ser', 'Integer::deser', 'Cursor::next', 'Cursor::read'], trusted=KANI_T),
    'P03': dict(search='db', level='proof', kani=['ints::p03_eq'], kani_thorough=['ints::p03_eq', 'ints::add::', 'ints::sub::'], kani_settles=r'From|Integer::[ui](8|16|32|64|128|size)$|eq_$|is_', kani_functions=['Integer::eq', 'Integer::hash', 'is_negative', 'is_positive'], trusted=KANI_T),
    'P04': dict(search='db', level='proof', kani=['ints::p04'], kani_functions=['Integer::try_from(f64)', 'Integer::try_from(f32)', 'f64::from(Integer)', 'f32::from(Integer)'], trusted=KANI_T),
}
for p in ('P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P12', 'P13', 'P14', 'P15', 'P21', 'P22'):
    PLAN[p] = dict(search='db', level='exploration')

PLAN['P14'].update(kani=['floats::widen'], kani_functions=['(the fact about f64::from(f32) which the Verus contracts assume)'], trusted=KANI_T)
PLAN['P15'].update(kani=['floats::facts'], kani_functions=['(facts about f64 and f32 which the Verus contracts assume: ==, classify, + 0.0)'], trusted=KANI_T)

PLAN['P20'] = dict(search='c', level='exploration')
for p in ('P16', 'P17', 'P18', 'P19'):
    PLAN[p] = dict(search='d', level='exploration')

K_NOTE = 'Proved for every value by symbolic execution of the unmodified crate with assertions stated over mathematical numbers; loops are unrolled to the 16 bytes of the widest integer and unwinding assertions show that this is complete. '
S_NOTE = 'A bounded search of the real code with concrete inputs runs beside it and supplies failing inputs. '
NOTES = {
    'P01': K_NOTE + 'All 144 pairs of types; thorough: of integers which were serialised in between as well. ' + S_NOTE,
    'P02': K_NOTE + 'All twelve types. ' + S_NOTE,
    'P03': K_NOTE + 'Equality, hash and sign for all pairs of the twelve types. ' + S_NOTE,
    'P04': K_NOTE + 'All f64 and f32 bit patterns; the other way all u128 and i128. ' + S_NOTE,
}
V_T = ['Verus 0.2026.09 with its Z3 and vstd\'s specifications of core and alloc']
V_NOTE = 'Verus proves the contracts on the functions, extracted from the current source on every run (rewrites and assumptions are listed in the evidence). '
VERUS = {
    'P01': [('integer', r'From|Integer::[ui](8|16|32|64|128|size)$')],
    'P02': [('integer', r'From|Integer::[ui](8|16|32|64|128|size)$|Integer::(de)?ser$'), ('cursor', r'::(next|read|get_pos)$')],
    'P03': [('integer', r'From|Integer::[ui](8|16|32|64|128|size)$|eq_$|is_|::(add|sub|mul|div)$')],
    'P05': ['cursor'],
    'P06': ['bits'],
    'P07': ['rle'],
    'P08': ['huffman'],
    'P09': ['rle', 'huffman', 'binary'],
    'P10': [('values', r'as_ty$|parse_string|deser_array_or_map_len', 'support', 'good && scalar(m)'), 'values', 'imaginary', ('integer', r'From|Integer::(de)?ser$', 'support'), ('cursor', '', 'support')],
    'P11': [('values', '', '', 'good || refused'), ('imaginary', '', 'support'), ('integer', r'From|Integer::(de)?ser$', 'support'), ('cursor', '', 'support'), ('bits', '', 'support'), ('rle', '', 'support'), ('huffman', '', 'support'), ('binary', '', 'support')],
    'P12': ['store', ('values', '', 'support'), ('imaginary', '', 'support'), ('integer', r'From|Integer::(de)?ser$', 'support'), ('cursor', '', 'support'), ('bits', '', 'support'), ('rle', '', 'support'), ('huffman', '', 'support'), ('binary', '', 'support')],
    'P13': [('cursor', '', 'safety'), ('integer', r'Integer::deser$|TryFrom<Integer>', 'safety'), ('bits', r'deser|IntoIterator|vec_bool_from', 'safety'), ('rle', 'un_rle', 'safety'),
            ('huffman', r'deser|decode|add_node|leaf_contents', 'safety'), ('binary', r'un_|deser|try_from', 'safety'),
            ('imaginary', r'deser', 'safety'), ('values', r'deser|parse_|TryFrom', 'safety'), ('store', r'deser', 'safety')],
    'P14': [('json', '', '', 'p == 14'), ('integer', r'From|is_negative$', 'support'), ('values', r'ValueTy|::try_from$|::from$', 'support')],
    'P15': ['equality', ('integer', r'eq_$'), ('values', r'as_ty$')],
    'P16': [('daemon', r'^(?!.*(save|write_to_file|get_store|get_internal|daemon::new$))', '', 'p == 16')],
    'P17': [('daemon', r'^(?!.*(is_valid|From|into_response|save|write_to_file|get_store|get_internal|daemon::new$))', '', 'p == 17')],
    'P18': [('daemon', r'^(?!.*(From|into_response|get_store|get_internal|daemon::new$))', '', 'p == 18')],
    'P19': [('daemon', r'SourisState::(remove_db|save)$|write_to_file|get_store|get_internal|daemon::new$', '', 'p == 19')],
    'P20': ['client', 'sync_client', 'async_client'],
    'P21': ['polar'],
    'P22': [('json', r'BinaryData', 'support', 'p == 22'), ('json', '', '', 'p == 22'), ('integer', r'From|is_negative$', 'support')],
}
NOTES['P21'] = 'Floats are taken for real numbers (no rounding, no overflow), and sin, cos, atan and so on for what school teaches of them. ' + S_NOTE
for p, v in VERUS.items():
    c = PLAN[p]
    c['verus'] = v; c['level'] = 'proof'; c['trusted'] = c.get('trusted', []) + V_T
    NOTES[p] = V_NOTE + NOTES.get(p, S_NOTE)
    c['technique'] = 'deductive verification of contracts on the real code with Verus' + (', and full-domain proofs with Kani' if 'kani' in c else '')
for p, c in PLAN.items():
    c.setdefault('note', NOTES.get(p, 'Bounded search of the real code with generated inputs; nothing is proved.'))
    c.setdefault('technique', 'contract proof on the real code with Kani (full-domain harnesses)' if 'kani' in c else 'bounded concrete search against a model (stand-in)')
NOT_APPLICABLE = {}

def known(pid):
    """The findings listed for a property which were not repaired."""
    out = []
    for l in open(os.path.join(HERE, 'KNOWN-FINDINGS')):
        m = re.match(r'finding: property=(\w+) (.*)', l)
        if m and m[1] == pid: out.append(m[2].strip())
    return out
