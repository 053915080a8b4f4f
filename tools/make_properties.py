"""Writes /verif/properties.jsonl (the one place the property texts live)."""
import json, os
S = 'src/fauxdoc/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {
            'files': [S + f for f in files],
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
            'observe_at': list(observe),
            'hook_needed': None,
        }})


prop('C01', 'Calling an emitter: one value, or a list of exactly n values',
     "Calling any emitter (Choice, Static, Iterative, Sequential, Word, Text, WrapOne, WrapMany, CopyFields, BasedOnFields, however nested) with no number returns one value, and calling it with n >= 0 returns a new list of exactly n values, each a value that emitter can emit; n = 1 gives a one-element list. "
     "Emitting never changes the sequences or mappings the emitter was built from, and changing the list a call with n returned never changes what is emitted later.",
     ['inputs', 'configurations', 'histories'],
     'Every composition of the built-in emitters, every item sequence (lists, tuples, strings, ranges, date ranges), every number n >= 0 and every interleaving of single and list calls.',
     'The tests call each emitter alone with one or two hand-picked sizes; compositions, n = 0, zero-length words/texts and aliasing of returned lists are not reached.',
     ['emitter.py', 'emitters/choice.py', 'emitters/fixed.py', 'emitters/text.py', 'emitters/wrappers.py', 'emitters/fromfields.py'],
     [('Emitter.__call__ dispatch to emit / emit_many', S + 'emitter.py'), ('emit_many implementations', S + 'emitters/')],
     observe=['return value of emitter() and emitter(n)'])

prop('C02', 'Seeding makes output reproducible; reset replays it',
     "Two identically built emitters, fields or schemas that are given the same seed - when constructed or later through seed(), seed_source or seed_fields, and whatever valid seed it is (0, negative or big integers, strings, bytes, floats) - produce the same output for the same sequence of calls, however deeply their parts are nested. "
     "Calling reset on a seeded object makes it produce its output again from the start; a seed handed to a parent restarts and governs every random part below it, so that what was emitted before reseeding and resetting does not matter. "
     "Objects seeded with integers (or strings) that random.Random tells apart, as it does all different integers from 0 to 2**32 - 1, produce different output; seeding with None takes the seed away, so that resetting no longer repeats anything.",
     ['inputs', 'configurations', 'histories'],
     'All emitter/field/schema trees, all seed values valid for random.Random, all call histories before and after seeding or resetting.',
     'The tests pin a few seeded outputs of single emitters; reseeding mid-history, nested trees and falsy or non-integer seeds are sampled at most once.',
     ['mixins.py', 'emitters/choice.py', 'emitters/text.py', 'emitters/wrappers.py', 'emitters/fromfields.py', 'profile.py'],
     [('RandomMixin.reset / seed', S + 'mixins.py'), ('RandomWithChildrenMixin.reset / seed', S + 'mixins.py'), ('Choice reshuffle on seed/reset', S + 'emitters/choice.py'), ('Schema.seed_fields / reset_fields', S + 'profile.py')],
     [('rng_seed', 'seed that reset goes back to', 'RandomMixin'), ('rng', 'the private random.Random', 'RandomMixin')])

prop('C03', 'Randomness is private: no shared state, no hidden inputs',
     "Building, seeding, resetting and using emitters, fields and schemas neither reads nor changes the state of the global random module, and activity of one object never changes the output of another seeded object that it shares no emitter with. "
     "Seeded output does not depend on the interpreter's string-hash randomisation or on what else ran earlier in the process. "
     "Objects that were never given a seed are not made predictable by seeding the global random module: two of them do not produce the same long output.",
     ['histories', 'configurations', 'schedules'],
     'All interleavings of operations on several objects and of random.seed/random.random calls, across interpreter runs with different PYTHONHASHSEED.',
     'Tests run one object at a time in one process, so leaks through the global RNG, shared default arguments, class-level state or set ordering cannot show.',
     ['mixins.py', 'mathtools.py', 'emitters/choice.py', 'emitters/text.py', 'emitters/wrappers.py', 'profile.py'],
     [('per-instance random.Random', S + 'mixins.py'), ('weighted_shuffle rng argument', S + 'mathtools.py'), ('BoundWrapper passes bound_to.rng', S + 'emitters/wrappers.py')])

prop('C04', 'Choice with replacement emits only selectable items, without limit',
     "A Choice emitter that replaces items emits only members of its items, never an item whose weight is zero, and never runs out, whatever mix of single and list calls is made. "
     "Every item with a positive weight stays selectable at all times, in single calls and in list calls of any size, including the first and the last item; with no weights every item is selectable. "
     "Items may be any non-empty sequence, of hashable or unhashable values, with duplicates; an empty sequence or a non-sequence is refused with ValueError.",
     ['inputs', 'histories', 'configurations'],
     'All item sequences, all weight vectors with at least one positive weight (plain or cumulative), all call histories.',
     'Tests sample a few fixed seeds; support boundaries (zero weights, extreme positions, single-item sequences) are not exercised over all sizes.',
     ['emitters/choice.py', 'mixins.py'],
     [('Choice._choice_with_replacement', S + 'emitters/choice.py'), ('Choice.__init__ validation', S + 'emitters/choice.py')])

prop('C05', 'Choice without replacement hands out every item exactly once',
     "A Choice with replace=False emits, between resets, each item of its sequence at most once (counting duplicates as separate items); after as many values as there are items the multiset emitted equals the items. "
     "num_unique_items and num_unique_values always tell how many items and how many distinct values remain, asking for more than remain raises ValueError and consumes nothing, and the order of a seeded emitter does not depend on how the requests are split into calls. "
     "reset, seed, setting weights, and switching replacement from on to off make all items available again; switching it on lifts the limit.",
     ['inputs', 'histories', 'configurations'],
     'All item sequences with duplicates and unhashable values, all weights including zero weights, all histories of single/list emissions, overdraws, resets, reseedings, weight and replace changes.',
     'Tests exhaust a few short fixed sequences in one go; mixed histories with overdraws, duplicates, zero weights and setting changes are not covered.',
     ['emitters/choice.py', 'mathtools.py', 'mixins.py', 'emitter.py'],
     [('pre-shuffled list and index', S + 'emitters/choice.py'), ('raise_uniqueness_violation', S + 'emitter.py')],
     [('_shuffled/_shuffled_index', 'remaining items', 'Choice'), ('_num_unique_items', 'remaining count', 'Choice')])

prop('C06', 'replace_only_after_call: no item twice within one call',
     "With replace_only_after_call=True every single list call emits each item at most once (as a multiset the result is contained in the items), any call may use all items again, and a call asking for more values than there are items raises ValueError without affecting later calls. "
     "Single-value calls never run out, num_unique_items and num_unique_values always report the full sequence, and with weights, zero-weight items appear in a list only after all positively weighted items.",
     ['inputs', 'histories', 'configurations'],
     'All item sequences and weights, all request sizes from 0 to beyond the item count, all interleavings.',
     'Tests use one short sequence and few sizes; sizes around the algorithm switch of the weighted sampler and zero weights are not covered.',
     ['emitters/choice.py', 'mathtools.py'],
     [('Choice._choice_without_replacement', S + 'emitters/choice.py'), ('weighted_shuffle', S + 'mathtools.py')])

prop('C07', 'Choice settings stay coherent and are validated atomically',
     "After any sequence of settings a Choice's weights and cum_weights are both None or are tuples with one entry per item where cum_weights are the running sums of weights, and they are unaffected by later changes to the sequences passed in; which of the two kinds is set makes no difference to the output. "
     "replace_only_after_call=True always implies replace=True and replace=False implies replace_only_after_call=False, with the most recent setting winning. "
     "Weights of the wrong length (even empty) are refused with ValueError, giving both kinds of weights at construction with TypeError, and a refused setting leaves the emitter as it was, output included.",
     ['inputs', 'histories', 'configurations'],
     'All sequences of attribute assignments (valid and invalid) interleaved with emissions.',
     'Tests make one assignment per instance and look at the attributes; sequences of assignments, refused ones included, are not explored.',
     ['emitters/choice.py'],
     [('Choice._set_all_weights', S + 'emitters/choice.py'), ('Choice property setters', S + 'emitters/choice.py')],
     [('_weights/_cum_weights', 'current weights', 'Choice'), ('_replace/_replace_only_after_call', 'replacement mode', 'Choice')])

prop('C08', 'Weights decide probabilities',
     "The frequency with which a Choice with replacement emits each item is proportional to its weight (equal without weights), in single and list calls alike, whether weights were given plainly, cumulatively or set later; only the ratio of weights matters. "
     "Without replacement, or with replacement only after each call, each next item is drawn with probability proportional to its weight among the items not yet drawn, regardless of how many items are requested. "
     "Which item is drawn depends on position and weight only, never on the item values.",
     ['inputs', 'configurations', 'histories'],
     'All weight vectors, item sequences, request sizes and replacement modes; probabilities taken over seeds.',
     'Tests pin single seeded outputs; they cannot tell a biased sampler from an unbiased one for any other weights or sizes.',
     ['emitters/choice.py', 'mathtools.py'],
     [('random.choices with cum_weights', S + 'emitters/choice.py'), ('exponential-score shuffle and rejection sampling', S + 'mathtools.py')])

prop('C09', 'Distribution functions and distribution-weighted choices',
     "poisson(x, mu) and gaussian(x, mu, sigma) return the Poisson probability and the Gaussian density for all x in their domain, however large, without failing. "
     "poisson_choice and gaussian_choice give the item at (1-based) position x that weight, raised to weight_floor where it is lower, for sequences of any length, and pass all other options on to Choice. "
     "chance(p) emits only booleans, True with probability p clamped to 0..1: always False for p <= 0 and always True for p >= 1.",
     ['inputs', 'configurations'],
     'All x, mu, sigma, floors, sequence lengths and chances.',
     'Tests check small x, a handful of parameters, and chances of a few values.',
     ['mathtools.py', 'emitters/choice.py'],
     [('poisson / gaussian', S + 'mathtools.py'), ('poisson_choice / gaussian_choice / chance', S + 'emitters/choice.py')])

prop('C10', 'weighted_shuffle draws k distinct positions',
     "weighted_shuffle returns a new list of exactly `number` items (all of them by default) taken from distinct positions of the input sequence, for every number from 0 to the length. "
     "Items with zero weight come only after all positively weighted ones, the result is determined by the given rng's state, the inputs are left unchanged, and a different number of weights than items raises ValueError.",
     ['inputs', 'configurations'],
     'All item sequences (duplicates, unhashable, ranges, strings), weight vectors with zeros and extreme ratios, and all numbers.',
     'Tests use a few fixed sequences and sizes and pin the seeded output.',
     ['mathtools.py'],
     [('low-k rejection sampling and high-k score sort', S + 'mathtools.py')])

prop('C11', 'Static, Iterative and Sequential replay their source exactly',
     "Static always emits its current value. Iterative and Sequential emit exactly their source's values in order, starting over after the last one, for every mix of single and list calls; position is kept between calls, returns to the first value on reset, and returns to it after every call when reset_after_call is set (also when it is switched later); the public iterator is the one they emit from. "
     "A replaced iterator_factory takes effect at once from its first value and updates Sequential's items; an empty source is refused with ValueError, leaving the emitter as it was.",
     ['inputs', 'histories', 'configurations'],
     'All item sequences, all call/reset/assignment histories.',
     'Tests check a few fixed call sizes on one short sequence.',
     ['emitters/fixed.py', 'mixins.py'],
     [('Iterative.make_infinite_iter', S + 'emitters/fixed.py'), ('Sequential.reset', S + 'emitters/fixed.py')],
     [('_iterator', 'current position', 'Iterative/Sequential')])

prop('C12', 'dtrange contains exactly the values range() semantics imply',
     "dtrange(start, stop, step, unit) contains exactly start, start + step, start + 2*step, ... up to but excluding stop, as values of start's type, for positive and negative steps; it is empty when stop lies on the wrong side of start or equals it. "
     "For times, counting goes past midnight in the direction of the step (11 PM to 4 AM is five hours forward), and start = stop means one full 24-hour round in either direction. "
     "Time-zone information of start is kept on every value.",
     ['inputs'],
     'All dates, datetimes and times (naive or aware), all steps in all units, in both directions, empty and single-value ranges included.',
     'Tests check a table of ranges; the arithmetic must hold for every start, stop and step.',
     ['dtrange.py'],
     [('_value_to_index length computation', S + 'dtrange.py'), ('_index_to_value', S + 'dtrange.py'), ('dtrange', S + 'dtrange.py')])

prop('C13', 'A date/time range behaves as the sequence of its values',
     "Every sequence operation on a date/time range - len, truth value, iteration, reversed, indexing with positive or negative numbers, slicing with any start/stop/step, slices of slices, in, index with limits, count - gives the same answer (or the same kind of error) as on the list of its values, a slice being again a range. "
     "Asking about values of another type or kind answers 'not in the range' instead of failing, and all of this works for ranges of any length without listing them.",
     ['inputs', 'histories'],
     'All ranges (built by dtrange or directly), all indexes, slices, chains of slices and probe values.',
     'Tests use a table of ranges and indexes; slices of slices, odd steps, boundary dates and huge ranges are not covered.',
     ['dtrange.py'],
     [('DateOrTimeRange.__getitem__ / index / __contains__ / count', S + 'dtrange.py')],
     [('_index_range', 'index arithmetic', 'DateOrTimeRange')])

prop('C14', 'Range equality, hashing and immutability',
     "Two date or datetime ranges are equal exactly when they contain the same values in the same order, however they were obtained (all empty ranges are equal, a one-value range ignores its step, derived range classes do not matter), and equal ranges have equal hashes. "
     "A range never equals an object that is not a range, and comparing never fails. "
     "start, stop, step and length can be read (stop being start + length * step) but never changed.",
     ['inputs', 'histories'],
     'All pairs of ranges including slices and differently stepped ranges; all attribute assignments.',
     'Tests compare a table of pairs.',
     ['dtrange.py'],
     [('DateOrTimeRange.__eq__ / __hash__', S + 'dtrange.py'), ('set-once properties', S + 'dtrange.py')])

prop('C15', 'dtrange arguments: strings, units and refusals',
     "ISO strings accepted by date, time or datetime.fromisoformat give the same range as the parsed objects; weeks, days, hours, minutes, seconds, milliseconds and microseconds steps mean the same as the equivalent timedelta, the default unit being days for dates and seconds otherwise. "
     "Uninterpretable values, start and stop of different types, unknown units, date steps that are not whole days and time steps of a day or more are refused with ValueError; so are direct constructions with a wrongly typed start or step or a length string that is not a number (one that is a number is taken as that number).",
     ['inputs'],
     'All valid and invalid argument combinations.',
     'Tests list some valid and some invalid combinations.',
     ['dtrange.py'],
     [('_parse_user_date', S + 'dtrange.py'), ('DateOrTimeRange attribute validation', S + 'dtrange.py')])

prop('C16', 'Word: each word is the next length and the next characters',
     "Each word a Word emitter emits is made of exactly as many alphabet values as its length emitter emitted for it, taken in order, without skipping or reusing any, from its alphabet emitter; this holds for single and list calls in any mix and for length 0. "
     "Resetting the Word makes its length and alphabet emitters start over as well, and reseeding it makes a Word with random parts emit what a newly built one with that seed emits.",
     ['inputs', 'histories', 'configurations'],
     'All length and alphabet emitters (sequential, random, single- or multi-character), all call/reset/seed histories.',
     'Tests check lengths and alphabets of a few samples and pin seeded output.',
     ['emitters/text.py', 'mixins.py'],
     [('Word.emit / emit_many partitioning', S + 'emitters/text.py')])

prop('C17', 'Text: n words joined by the next separators',
     "Each text a Text emitter emits consists of exactly as many words as its numwords emitter emitted for it, taken in order from the word emitter, with exactly one separator from the separator emitter between neighbouring words and none at the ends; this holds for any mix of single and list calls, and zero words give an empty string that uses up no word or separator. "
     "Separators default to a single space, no word or separator is skipped or used twice, reset makes all three emitters start over, and a reseeded Text with random parts emits what a newly built one with that seed emits.",
     ['inputs', 'histories', 'configurations'],
     'All numwords/word/separator emitters, all call/reset/seed histories.',
     'Tests check word counts on a few samples and pin seeded output; batch boundaries, zero counts and separator alignment are not covered.',
     ['emitters/text.py', 'mixins.py'],
     [('Text.emit_many', S + 'emitters/text.py')])

prop('C18', 'Text over a unique-per-call word list never starves or over-repeats',
     "When a Text's word emitter is a Choice of distinct words with replace_only_after_call, any number of texts of any length can be requested: the words of one request are drawn so that every word of the list is used once before any is used again. "
     "A request needing no more words than the list has contains no word twice.",
     ['inputs', 'histories', 'configurations'],
     'All vocabularies (with weights, seeds, duplicates), text lengths and request sizes, above and below the vocabulary size.',
     'Tests check one vocabulary with a fixed total.',
     ['emitters/text.py', 'emitters/choice.py'],
     [('Text._get_words_iterator', S + 'emitters/text.py')])

prop('C19', 'num_unique_values and emits_unique_values tell the truth',
     "num_unique_values is the exact number of distinct values a Choice (replacing, positive weights), Static or Sequential emitter can emit, and what a Choice without replacement can still emit; for Word and Text it is the exact number of distinct strings when the parts combine unambiguously and never less than what is actually emitted; emitters over unknowable sources report None. "
     "Whenever emits_unique_values is True no value is emitted twice from then until the next reset, and a Choice without replacement reports it exactly when its remaining items are all distinct. "
     "Asking for either never changes what is emitted.",
     ['inputs', 'configurations', 'histories'],
     'All items with duplicates (hashable or not), length and count emitters with duplicate or zero entries, and all histories.',
     'Tests check a table of emitters without duplicates.',
     ['emitter.py', 'mixins.py', 'emitters/choice.py', 'emitters/fixed.py', 'emitters/text.py'],
     [('num_unique_values properties', S + 'mixins.py'), ('_update_num_unique_vals', S + 'emitters/text.py')])

prop('C20', 'Wrappers apply the function to each source value, in order',
     "WrapOne emits the wrapper function of each value its source emits, WrapMany the function of one value per source passed under the source's name, in order, one function call per emitted value, for single and list calls in any mix, starting from the sources' beginning after construction or after a new wrapper is set. "
     "A function with an rng parameter receives the wrapper's own seedable generator on every call, others never do. "
     "A function that cannot accept these arguments is refused with TypeError when it is set, and errors it raises itself reach the caller.",
     ['inputs', 'histories', 'configurations'],
     'All source emitters, functions (lambdas, keyword, variadic, builtin, bound methods, existing bound wrappers), call/set/seed/reset histories.',
     'Tests wrap one or two sources with fixed functions and check few values.',
     ['emitters/wrappers.py', 'mixins.py'],
     [('BoundWrapper.__call__ / try_mock_call', S + 'emitters/wrappers.py'), ('WrapOne / WrapMany emit_many', S + 'emitters/wrappers.py')])

prop('C21', 'Field: gate, repeat and previous',
     "Calling a field asks its gate once: if the gate says no the field gives None and neither the repeat nor the data emitter is used; otherwise the repeat emitter is asked once, and the field gives the data emitter's single value for None or a list of exactly that many values for a number, 0 giving an empty list. "
     "previous is always the value the last call returned and is None before the first call and after a reset; replacing any of the three emitters takes effect with the next call. "
     "multi_valued is False exactly when the repeat emitter has a known set of items that are all None.",
     ['inputs', 'histories', 'configurations'],
     'All gate/repeat/data emitters and all call/reset/seed/assignment histories.',
     'Tests check fixed gate and repeat patterns over a few calls.',
     ['profile.py', 'mixins.py'],
     [('Field.__call__', S + 'profile.py'), ('Field.multi_valued / previous', S + 'profile.py')],
     [('_cache', 'last value', 'Field')])

prop('C22', 'Schema: one document per call, all fields, in order',
     "Each call of a schema calls every field exactly once, hidden ones included, in the order of the schema's fields, and returns a new dict holding the values of exactly the public fields under their names in that order. "
     "Adding, replacing, removing, setting or hiding fields between calls takes effect with the next document; public_fields and hidden_fields always partition the fields in order, and changing them or a returned document changes nothing in the schema. "
     "reset_fields and seed_fields reach every field, and an error in one field reaches the caller.",
     ['inputs', 'histories', 'configurations'],
     'All lists of fields and all histories of calls, field changes, resets and seedings.',
     'Tests build two or three fixed schemas and check single documents.',
     ['profile.py', 'group.py'],
     [('Schema.__call__', S + 'profile.py'), ('Schema.add_fields / set_fields', S + 'profile.py')],
     [('fields', 'ordered name -> field map', 'Schema')])

prop('C23', 'CopyFields copies exactly what its sources last emitted',
     "A CopyFields over one single-valued field (passed alone) emits that field's last value unchanged, None included. "
     "Otherwise it emits one new list with all non-None last values of its sources in source order, lists and tuples spread out one level, or None if there are none; with a separator (even an empty one) it emits these values, if any, joined as strings. "
     "Emitting never calls or alters the source fields, reset does not reset them while reset_source does, and new source fields or a new separator take effect at once.",
     ['inputs', 'histories', 'configurations'],
     'All source field combinations (single, multi-valued, gated, lists of one), value types, separators and call histories.',
     'Tests check a table of fixed source values.',
     ['emitters/fromfields.py', 'profile.py'],
     [('CopyFields.emit', S + 'emitters/fromfields.py'), ('SourceFieldGroup.single_valued', S + 'emitters/fromfields.py')])

prop('C24', "BasedOnFields applies its action to the sources' last values",
     "A BasedOnFields emits its action applied to the last value of its one source field, or to one keyword argument per source field (name to last value) when there are several, calling the action once per single emission; an action with an rng parameter receives the emitter's own seedable generator. "
     "Setting a suitable Python function as its action, at creation or later, and emitting never draw values from the source fields, so that the first document of a schema starts with its sources' first values. "
     "An action that cannot take these arguments is refused with TypeError when it is set; reset leaves the sources alone while reset_source and seed_source reach all of them.",
     ['inputs', 'histories', 'configurations'],
     'All source fields, actions and histories of document generation, action changes, resets and seedings.',
     'Tests check fixed sources and lambdas and do not look at what construction does to the sources.',
     ['emitters/fromfields.py', 'emitters/wrappers.py', 'profile.py'],
     [('BasedOnFields.action setter', S + 'emitters/fromfields.py'), ('BasedOnFields.emit', S + 'emitters/fromfields.py')])

prop('C25', 'Groups are real lists and dicts that broadcast to their members',
     "An ObjectGroup behaves like the list, and an ObjectMap like the insertion-ordered dict, of its objects under every list or dict operation (slices, sums, copies, pickles and updates included), derived groups being groups of the same members. "
     "setattr sets the attribute on exactly the members that already have it; do_method calls the method once, in order and with the given arguments, on exactly the members that have it; None members and members without it are skipped silently, but an error raised inside a member's method, or when its attribute is set, reaches the caller.",
     ['inputs', 'histories'],
     'All operation sequences over groups with arbitrary members (with and without the attribute, None, duplicates).',
     'Tests check two groups with two members and the two broadcast operations.',
     ['group.py', 'emitters/fromfields.py'],
     [('GroupMixin.setattr / do_method', S + 'group.py'), ('ObjectGroup / ObjectMap', S + 'group.py')])

prop('C26', 'Deprecated names keep working and warn',
     "Every deprecated name of fauxdoc.typing, fauxdoc.emitters and fauxdoc.emitters.wrappers can be read or imported in any way and order, yields the same usable object every time, appears in dir(), and each access issues a DeprecationWarning that names it and its replacement. "
     "Unknown names raise AttributeError, and using any non-deprecated name never warns.",
     ['histories', 'inputs'],
     'All sequences of attribute accesses and imports over deprecated, current and unknown names.',
     'Tests access each name once.',
     ['warn.py', 'typing.py', 'emitters/__init__.py', 'emitters/wrappers.py', 'emitters/fixed.py'],
     [('get_deprecated_attr', S + 'warn.py'), ('module __getattr__ / __dir__', S + 'typing.py')])

prop('C27', 'make_alphabet and clamp compute exact inclusive bounds',
     "make_alphabet returns, in order, exactly the characters of each given inclusive code-point range (one-character ranges, overlapping and repeated ranges included), and without ranges the documented default alphabet. "
     "clamp returns the number itself when it lies within the given bounds (either may be missing, and bounds may be 0 or negative) and otherwise the bound it crossed.",
     ['inputs'],
     'All lists of code-point ranges up to the end of Unicode; all numbers and bounds.',
     'Tests check a few ranges and numbers.',
     ['emitters/text.py', 'mathtools.py'],
     [('make_alphabet', S + 'emitters/text.py'), ('clamp', S + 'mathtools.py')])

prop('C28', 'User-written emitters plug into calling, seeding and resetting',
     "A class derived from Emitter is called through emit for a single value or a list of one and through emit_many once for any other number, and cannot be instantiated unless it defines both; by default it is not unique, its number of unique values is unknown and reset does nothing. "
     "The mixins give it a private random generator started from rng_seed, restarted by reset and by seed, a list of items, and children: resetting or seeding the parent resets or seeds every child that supports it, nested ones included, hands the parent's seed down, and skips children that do not. "
     "Such emitters - or any object with the same interface - can be used wherever a built-in emitter can, and a class derived from a built-in emitter which overrides emit, emit_many, reset or seed is called, reset and seeded through its own methods.",
     ['inputs', 'histories', 'configurations'],
     'All user-defined emitter classes over the base class and mixins, in all positions of emitter trees, and all call histories.',
     'Tests define a few such classes with fixed values.',
     ['emitter.py', 'mixins.py', 'group.py'],
     [('Emitter.__call__', S + 'emitter.py'), ('RandomMixin / ItemsMixin / ChildrenMixin / RandomWithChildrenMixin', S + 'mixins.py')])

prop('C29', 'Every document is consistent with itself',
     "In every document a schema generates, each field built on other fields of it - CopyFields and BasedOnFields, wrappers of these, chains of such fields, hidden, gated or repeated ones - holds exactly what its rule makes of the values its source fields have in this same document (the sources standing before it), hidden sources included, and None where its gate says no. "
     "This holds whatever came before: other documents, resets, seedings, fields called on their own, changed separators, sources and hide flags, fields added later, or a document that failed half way; and it holds for fields of any name.",
     ['inputs', 'histories', 'configurations'],
     'All schemas with derived fields, and all histories of documents and changes.',
     'Tests check derived fields one by one with fixed source values; chains, gates and histories of whole documents are not reached.',
     ['profile.py', 'emitters/fromfields.py', 'emitters/wrappers.py'],
     [('Schema.__call__', S + 'profile.py'), ('Field.__call__ / previous', S + 'profile.py'), ('CopyFields.emit / BasedOnFields.emit', S + 'emitters/fromfields.py')],
     [('previous', 'last value of each field', 'Field')])

prop('C30', 'Fields of a schema do not influence each other',
     "The values a field gives in the documents of a schema are those it gives on its own when it is called as often: adding, removing, moving, hiding, calling, seeding or resetting other fields, and fields copying from it or computed from it, change nothing in its column, even if it shares input sequences (but no emitter) with them. "
     "seed_fields and reset_fields do to each field exactly what its own seed and reset do.",
     ['inputs', 'histories', 'configurations'],
     'All schemas of fields over any emitter trees, and all histories of documents and changes.',
     'Tests never compare a schema with its fields used alone, nor change one field while watching the others.',
     ['profile.py', 'mixins.py', 'group.py', 'emitters/fromfields.py'],
     [('Schema.__call__ / seed_fields / reset_fields', S + 'profile.py'), ('RandomWithChildrenMixin', S + 'mixins.py')])

prop('C31', 'Values stay unique across a whole document set',
     "When fields draw from a Choice without replacement - directly, through wrappers, words or texts, singly or several values at a time, gated, several fields sharing one Choice - no item appears in the documents more often than it is in the Choice's items until the fields are reset or seeded; documents can be generated until what is asked for exceeds what remains, then the ValueError reaches the caller and what remains is still there. "
     "With replacement only after each call, the values a field asks such a Choice for in one document hold no item twice (texts that need more words than there are start over), while every document may use all items again.",
     ['inputs', 'histories', 'configurations'],
     'All schemas over such emitters, and all histories of documents, resets and seedings.',
     'Tests use these emitters alone, not shared by fields nor inside wrappers and texts, and not up to exhaustion over several documents.',
     ['emitters/choice.py', 'profile.py', 'emitters/text.py', 'emitters/wrappers.py'],
     [('Choice._choice_without_replacement', S + 'emitters/choice.py'), ('Field.__call__', S + 'profile.py')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P))
