"""What the check of each property runs."""


def lang(alphabet, quick, thorough, replay, glue=' '):
    return {'name': 'Lang_%s%s' % (alphabet, '' if glue == ' ' else '_tight'), 'module': 'MC_Lang', 'replay': 'd_lang.' + replay,
            'constants': {'Alphabet': '"%s"' % alphabet, 'Glue': '"%s"' % glue},
            'quick': {'N': quick}, 'thorough': {'N': thorough},
            'invariants': ['ErrorInside', 'Reads', 'LayoutFree', 'ErrorLeast', 'Emit']}


def chars(alphabet, quick, thorough, replay, before, after, n=''):
    return {'name': 'Chars_%s%s' % (alphabet, n), 'module': 'MC_Chars', 'replay': 'd_lang.' + replay,
            'constants': {'Alphabet': '"%s"' % alphabet, 'Before': '"%s"' % before, 'After': '"%s"' % after},
            'quick': {'N': quick}, 'thorough': {'N': thorough},
            'invariants': ['ErrorInside', 'Reads', 'TokensCover', 'Emit']}


def types(leaves, quick, thorough, replay, wide='TRUE', mod='d_lang.'):
    return {'name': 'Types_%s_%s' % (leaves, wide), 'module': 'MC_Types', 'replay': mod + replay,
            'constants': {'Leaves': '"%s"' % leaves, 'Wide': wide}, 'quick': {'Depth': quick}, 'thorough': {'Depth': thorough},
            'invariants': ['Good', 'RoundTrip', 'Emit']}


def index(mode, quick, thorough, replay):
    return {'name': 'Index_' + mode, 'module': 'MC_Index', 'replay': 'd_index.' + replay, 'constants': {'Mode': '"%s"' % mode},
            'quick': {'Len1': quick}, 'thorough': {'Len1': thorough},
            'invariants': ['Good', 'SliceWalk', 'VarTrue', 'Wrap1', 'FullFirst', 'EmptyIndex', 'Dropped', 'Emit']}


def tonp(leaves, quick, thorough):
    return {'name': 'ToNp_' + leaves, 'module': 'MC_ToNp', 'replay': 'd_numpy.tonp_same',
            'constants': {'Leaves': '"%s"' % leaves, 'Wide': 'TRUE'}, 'quick': {'Depth': quick}, 'thorough': {'Depth': thorough},
            'invariants': ['BackShape', 'BackStable', 'EmitNp']}


def text(alphabet, quick, thorough, front='', back=''):
    return {'name': 'Text_' + alphabet + ('_in' if front or back else ''), 'module': 'MC_Text', 'replay': 'd_discover.text_same',
            'constants': {'Alphabet': '"%s"' % alphabet, 'Front': '"%s"' % front, 'Back': '"%s"' % back},
            'quick': {'MaxLen': quick}, 'thorough': {'MaxLen': thorough}, 'invariants': ['Some', 'Blank', 'Signed', 'Emit']}


def unify(pool, quick, thorough, **kw):
    return dict({'name': 'Unify_' + pool, 'module': 'MC_Unify', 'replay': 'd_discover.unite_same', 'constants': {'Pool': '"%s"' % pool},
                 'quick': {'N': quick}, 'thorough': {'N': thorough},
                 'invariants': ['Unordered', 'Repeated', 'LeastBound', 'Grouping', 'NullAware', 'NoFieldLost', 'Emit']}, **kw)


def disc(pool, quick, thorough):
    return {'name': 'Discover_' + pool, 'module': 'MC_Discover', 'replay': 'd_discover.value_same', 'constants': {'Pool': '"%s"' % pool},
            'quick': {'Depth': quick}, 'thorough': {'Depth': thorough}, 'invariants': ['Good', 'Fits', 'OptTight', 'Emit']}


def valid(pool, quick, thorough):
    return {'name': 'Valid_' + pool, 'module': 'MC_Valid', 'replay': 'd_checks.valid_same', 'constants': {'Pool': '"%s"' % pool},
            'quick': {'Depth': quick}, 'thorough': {'Depth': thorough}, 'invariants': ['Decided', 'Self', 'Wider', 'Emit']}


def preds(leaves, quick, thorough, wide):
    return {'name': 'Preds_%s_%s' % (leaves, wide), 'module': 'MC_Preds', 'replay': 'd_checks.preds_same',
            'constants': {'Leaves': '"%s"' % leaves, 'Wide': wide}, 'quick': {'Depth': quick}, 'thorough': {'Depth': thorough},
            'invariants': ['Good', 'Coherent', 'OuterDims', 'CollectAll', 'Emit']}


def history(name, which, quick, thorough, **kw):
    return dict({'name': 'Registry_' + name, 'module': 'MC_Registry', 'replay': 'd_session.history_same', 'constants': {'Which': '"%s"' % which, 'MaxTables': 3},
                 'quick': {'N': quick, 'Emits': quick}, 'thorough': {'N': thorough, 'Emits': thorough},
                 'invariants': ['NewTables', 'BareHasNone', 'Emit'], 'properties': ['KeepsNames', 'RefusalsKeep', 'TablesApart', 'TypesApart']}, **kw)


def access(leaves, wide, quick, thorough):
    return {'name': 'Access_%s_%s' % (leaves, wide), 'module': 'MC_Access', 'replay': 'd_access.read_same',
            'constants': {'Leaves': '"%s"' % leaves, 'Wide': wide}, 'quick': {'Depth': quick}, 'thorough': {'Depth': thorough},
            'invariants': ['Good', 'Whole', 'Ends', 'Fields', 'WellV', 'EmitReads']}


def threads(pool, quick, thorough, n=2, **kw):
    return dict({'name': 'Threads_%s_%d' % (pool, n), 'module': 'MC_Threads', 'replay': 'd_threads.threads_same', 'constants': {'Pool': '"%s"' % pool, 'N': n},
                 'quick': {'Inner': quick[0], 'Turns': quick[1]}, 'thorough': {'Inner': thorough[0], 'Turns': thorough[1]},
                 'invariants': ['OwnResults', 'OwnInput', 'AllAnswered', 'Emit'], 'properties': ['Apart']}, **kw)


def handlers(pool, quick, thorough, **kw):
    return dict({'name': 'Handlers_' + pool, 'module': 'MC_Handlers', 'replay': 'd_handlers.handlers_same', 'constants': {'Pool': '"%s"' % pool},
                 'quick': dict(zip(('N', 'Some'), quick)), 'thorough': dict(zip(('N', 'Some'), thorough)),
                 'invariants': ['Closes', 'Alone', 'EmitAll'], 'properties': ['Local', 'Shadowed']}, **kw)


PLAN = {
    'C01': {'models': [lang('core', 5, 7, 'parse_same'), lang('types', 5, 7, 'parse_same'), lang('wild', 6, 8, 'parse_same'),
                       chars('quote', 4, 5, 'parse_same', '{', ': int8}'), chars('number', 4, 5, 'parse_same', '', ' * int8'),
                       chars('beyond', 3, 4, 'parse_same', '{', ': int8}'), chars('beyond', 3, 4, 'parse_same', '', ' * A', '2')]},
    'C02': {'models': [lang('core', 5, 7, 'syn_same'), lang('nest', 6, 8, 'syn_same'), lang('args', 6, 8, 'syn_same'),
                       chars('blank', 4, 5, 'syn_same', '{', ' :int8 }'), chars('word', 4, 5, 'syn_same', '{', ': A}')]},
    'C03': {'models': [types('few', 3, 4, 'print_same'), types('all', 1, 2, 'print_same'), types('texts', 1, 2, 'print_same', 'FALSE')]},
    'C20': {'models': [types('all', 1, 2, 'canon_same'), types('few', 3, 4, 'canon_same')]},
    'C04': {'models': [{'name': 'Eq', 'module': 'MC_Eq', 'replay': 'd_values.eq_same', 'quick': {'Big': 'FALSE'}, 'thorough': {'Big': 'TRUE'},
                        'invariants': ['Symmetric', 'Transitive', 'TextsDiffer', 'Emit']}]},
    'C05': {'models': [types('all', 1, 2, 'copy_same', mod='d_values.'), types('few', 2, 4, 'copy_same', mod='d_values.')]},
    'C06': {'models': [{'name': 'Build', 'module': 'MC_Build', 'replay': 'd_values.build_same', 'constants': {'MaxArgs': 3},
                        'quick': {'Rich': 'FALSE'}, 'thorough': {'Rich': 'TRUE'},
                        'invariants': ['Good', 'SameAsText', 'RefusedAsText', 'Emit']}]},
    'C07': {'models': [index('slices', 0, 0, 'index_same'), index('fields', 0, 0, 'index_same'), index('tuples', 2, 3, 'index_same'),
                       index('drop', 0, 0, 'sub_same')]},
    'C08': {'models': [{'name': 'Cat_' + n, 'module': 'MC_Cat', 'replay': 'd_index.cat_same', 'quick': {'N': k, 'Rich': rich},
                        'thorough': {'N': 3, 'Rich': rich}, 'invariants': ['Good', 'Commutes', 'Groups', 'Emit']} for n, k, rich in (('three', 3, 'FALSE'), ('two', 2, 'TRUE'))]},
    'C09': {'models': [{'name': 'NumPy_all', 'module': 'MC_NumPy', 'replay': 'd_numpy.fromnp_same', 'constants': {'AllScalars': 'TRUE'},
                        'quick': {'Depth': 1}, 'thorough': {'Depth': 2}, 'invariants': ['Good', 'RoundTrip', 'Stable', 'Emit']},
                       {'name': 'NumPy_few', 'module': 'MC_NumPy', 'replay': 'd_numpy.fromnp_same', 'constants': {'AllScalars': 'FALSE'},
                        'quick': {'Depth': 2}, 'thorough': {'Depth': 3}, 'invariants': ['Good', 'RoundTrip', 'Stable', 'Emit']},
                       tonp('all', 1, 2), tonp('few', 2, 3)]},
    'C10': {'models': [{'name': 'Promo', 'module': 'MC_Promo', 'replay': 'd_numpy.promo_same', 'quick': {'Rich': 'FALSE'}, 'thorough': {'Rich': 'TRUE'},
                        'invariants': ['Commutes', 'Itself', 'Absorbs', 'Optional', 'Least', 'Emit']}]},
    'C11': {'models': [text('number', 4, 5), text('words', 3, 4), text('delta', 3, 5), text('clock', 4, 6, '1:1'), text('calendar', 3, 4), text('world', 3, 4), text('long', 3, 4)]},
    'C12': {'models': [disc('wide', 1, 2), disc('few', 2, 3)]},
    'C13': {'models': [unify('chain', 3, 4, hashseeds=6), unify('rows', 3, 4, hashseeds=2), unify('dims', 3, 4)]},
    'C14': {'models': [valid('wide', 1, 2), valid('few', 2, 3)]},
    'C15': {'models': [preds('few', 3, 4, 'FALSE'), preds('all', 1, 2, 'TRUE'), preds('all', 2, 3, 'FALSE')]},
    'C16': {'models': [{'name': 'Sets', 'module': 'MC_Sets', 'replay': 'd_checks.sets_same', 'quick': {'N': 3}, 'thorough': {'N': 4},
                        'invariants': ['OnceAll', 'Partition', 'FixedPoint', 'Matches', 'Emit']}]},
    'C17': {'models': [{'name': 'Assert', 'module': 'MC_Assert', 'replay': 'd_checks.assert_same', 'quick': {'Rich': 'FALSE'},
                        'thorough': {'Rich': 'TRUE'}, 'invariants': ['Good', 'SymmetricA', 'Strict', 'Looser', 'Emit']}]},
    'C19': {'trace': 'TraceSession', 'stateful': True, 'models': [
        {'name': 'Session_short', 'module': 'MC_Session', 'replay': 'd_history.history_same', 'quick': {'N': 2, 'Most': 5, 'Some': 0}, 'thorough': {'N': 3, 'Most': 5, 'Some': 0},
         'invariants': ['GoodHeap', 'Equal', 'Emit'], 'properties': ['Grows']},
        {'name': 'Session_long', 'module': 'MC_Session', 'replay': 'd_history.history_same', 'quick': {'N': 15, 'Most': 9, 'Some': 12}, 'thorough': {'N': 40, 'Most': 14, 'Some': 12},
         'simulate': {'quick': (200, 16), 'thorough': (4000, 41)}, 'workers': 1, 'invariants': ['GoodHeap', 'Equal', 'Emit'], 'properties': ['Grows']}]},
    'C21': {'models': [access('all', 'TRUE', 1, 2), access('few', 'FALSE', 2, 3)]},
    'C22': {'trace': 'TraceSession', 'stateful': True,
            'models': [threads('parse', (0, 9), (0, 20)), threads('lists', (0, 20), (1, 20)), threads('values', (0, 20), (1, 20)), threads('mixed', (1, 2), (2, 3)),
                       threads('mixed', (0, 1), (0, 3), 3)]},
    'C23': {'trace': 'TraceHandlers', 'stateful': True,
            'models': [handlers('objects', (2, 0), (3, 0)), handlers('builtin', (1, 0), (2, 0)),
                       handlers('all', (6, 2), (12, 2), simulate={'quick': (30, 7), 'thorough': (600, 13)}, workers=1)]},
    'C18': {'trace': 'TraceRegistry', 'stateful': True,
            'models': [history('types', 'types', 2, 3), history('tables', 'tables', 3, 4), history('long', 'all', 12, 25, simulate={'quick': (300, 13), 'thorough': (6000, 26)}, workers=1)]},
}

NOTES = {
    'C01': 'Every token sequence up to the bound over five alphabets and every short text over two character sets is given its meaning by the '
           'grammar in TLA+ and replayed into the parser; seeded random texts (spelled terms, mutations, token soup) are recorded and judged by the '
           'same grammar in TLC. Texts longer than these are sampled, not enumerated.',
    'C02': 'Error positions are computed by the TLA+ grammar for the enumerated and recorded texts; line, column, line text and caret are judged '
           'from the position. Constructor refusals carry no position and are only required to be refusals.',
    'C03': 'The round trip of the canonical text is checked by TLC on all small terms; each is replayed through str, pprint and repr; random '
           'larger terms, names, widths are recorded and judged.',
    'C20': 'The canonical text of every small term is computed in TLA+ and compared with what the code prints; documented aliases, near misses and random spellings are '
           'recorded with value, printed text, size and alignment and judged by the specification.',
    'C04': 'Equality is equality of the abstract terms in TLA+. All pairs over a universe of small terms are decided by TLC (symmetric, transitive) and '
           'replayed in three wrappings; random near misses (one parameter, field, dimension, order or wrapper changed) made in several ways are recorded with '
           'both equalities, both inequalities and the hashes.',
    'C05': 'Every term of the small universe goes through every pickle protocol, copy, deepcopy and the constructor; random larger ones as well, also '
           'into a second process with another hash seed, compared by term, text, attributes, hash, registry and use.',
    'C06': 'TLC enumerates calls of every constructor with up to three arguments of every kind and gives the datashape or refusal; all are replayed. '
           'Random longer calls and nested arguments are recorded and judged by the same operators.',
    'C07': 'TLC proves the slice arithmetic of the specification equal to walking the items for all bounds in -7..7, steps -3..3 and sizes 0..5, and '
           'enumerates field indexes and tuples of indexes; each case is replayed and also compared with NumPy. Random shapes with sizes and '
           'bounds beyond 2^64 are recorded and judged.',
    'C08': 'All lists of up to three small datashapes are concatenated in the specification (commutative, associative) and replayed; random longer '
           'lists with one near miss at a random position and huge sizes are recorded and judged.',
    'C09': 'All scalar dtypes, and records over them to a bounded depth with subarray fields, go through the specification (round trip checked by TLC), '
           'from_numpy and to_numpy; the small terms go to NumPy the same way. Random nested dtypes, datashapes with huge sizes, byte-swapped dtypes and object arrays '
           'are recorded and judged.',
    'C10': 'TLC checks over all pairs of scalar types, optional or not, that promotion is commutative, absorbing and for numbers the least upper bound '
           'of the safe conversions; all pairs are replayed in four wrappings and compared with NumPy. Random pairs with string widths and units are recorded.',
    'C11': 'TLC enumerates all texts up to a length over six alphabets (numbers, words, time spans, clock, calendar, characters beyond ASCII), '
           'classifies them by the specification and each is replayed. Random texts of any length and all kinds of scalars are recorded and judged. What the '
           'date parser makes of free-form dates is taken from dateutil, which is not part of the code.',
    'C12': 'All values built from small parts to a bounded depth are discovered in the specification, where TLC checks that the result describes every item and is '
           'optional only where something is missing, and are replayed as lists and tuples. Random nested collections are recorded and judged.',
    'C13': 'TLC checks over all lists of up to three or four types that the common type is the least upper bound whatever the order, repetition and grouping; '
           'all lists are replayed in several processes with different hash seeds, random longer ones are recorded and judged.',
    'C14': 'TLC enumerates schemas and values built side by side and gives the verdict (always decided; what is discovered of a value without '
           'conversions validates it); all are replayed with four forms of the schema. Random deeper schemas with values that fit and values changed in one '
           'place, arrays, tuples of schemas, Python and NumPy types are recorded and judged. Options are not specified beyond refusing what the type refuses.',
    'C15': 'TLC computes every predicate and collection over all small terms, checks how they hang together (dimensions in front, exclusions), and each is replayed as '
           'datashape, bare measure and text; random larger terms are recorded and judged.',
    'C16': 'Sets as sequences without repetition: TLC checks the algebra over all short lists and that kinds partition the numbers and the widest type is a fixed point; '
           'replayed over all scalar types, optional or not. Random sets, unions, members, signatures, supertypes and widest types are recorded and judged.',
    'C17': 'Equality up to flags in TLA+; TLC checks over pairs that differ in one or two places, in every wrapper and all flags, that it is symmetric, equality with all flags on and '
           'monotone in the flags; every pair is replayed in both orders and wrappings. Random deeper pairs with random flags are recorded and judged.',
    'C21': 'What every accessor gives on every small datashape, wrapped, bare or a dimension, is enumerated by TLC (shape and measure make up the whole, items are there from -len to len-1 '
           'and nowhere else, names, types, fields and look-up agree) and replayed. Random walks into larger datashapes, by index, slice, field and part, are recorded and judged.',
    'C22': 'TLC enumerates the interleavings of two or three calls (token by token, item by item), and calls made in the middle of others, and checks that each returns what it '
           'returns alone; every schedule is replayed on the code with a deterministic scheduler that changes threads at chosen lines or instructions. Random calls over the whole interface are '
           'interrupted at random places, nested in each other, made from callbacks and run in free threads, and what they give is validated against a process where nothing else is done.',
    'C23': 'Histories of registrations of handlers for classes of a user are enumerated by TLC, with what every value of a pool discovers as and validates as after each of them '
           '(a handler decides the values of its class and below, nothing else changes), and replayed, each in a process of its own; random sessions of registrations, '
           'discoveries and validations of nested values recorded from the code are judged by stepping the same machine.',
    'C18': 'A registry of named types, dimensions and type sets as a state machine in TLA+: TLC enumerates short histories of registrations, '
           'shadowing, removals and look-ups over several tables and simulates long ones; all are replayed on fresh tables and the default one. '
           'Random sessions are recorded and validated step by step as behaviours of the machine.',
    'C19': 'TLC enumerates short histories of operations on shared datashapes and simulates long ones (heap of datashapes only grows, equal calls give equal '
           'results); all are replayed on shared objects and against a new process. Random sessions over the whole interface are recorded with what the same '
           'call gives in a process where nothing was done, and validated as behaviours of a machine in which nothing a call says depends on history.',
}
