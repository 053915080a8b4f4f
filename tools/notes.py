NOTES = {
 'C01': 'random emitter trees, invariant on results and inputs, aliasing twin',
 'C02': 'random emitter trees and call histories, metamorphic replay relations',
 'C03': 'differential runs with interference, global-random state, hash seeds',
 'C04': 'stateful histories against a membership model; long-run coverage of every item',
 'C05': 'stateful histories against a multiset model; call-split metamorphic relation',
 'C06': 'stateful histories against a per-call multiset model',
 'C07': 'stateful settings histories against an attribute model and an untouched twin',
 'C08': 'generated weights, frequency tests with Chernoff bounds; metamorphic relations',
 'C09': 'exact-arithmetic reference for densities; generated choice parameters',
 'C10': 'generated inputs against a multiset/ordering invariant; statistical order test',
 'C11': 'stateful histories against a list-position model',
 'C12': 'differential against an independent enumeration of the values',
 'C13': 'differential against the list of values, and closed-form arithmetic for huge ranges',
 'C14': 'metamorphic: equality/hash against value lists; mutation attempts',
 'C15': 'metamorphic: strings vs objects, units vs timedelta; generated refusals',
 'C16': 'stateful histories against a stream-partition model',
 'C17': 'stateful histories against a three-stream model',
 'C18': 'generated vocabularies and requests, block-permutation invariant',
 'C19': 'brute-force enumeration of emittable values; invariant over histories',
 'C20': 'stateful histories with recording functions and sources against a stream model',
 'C21': 'stateful histories with recording emitters against a field model',
 'C22': 'stateful schema edits against an ordered-dict model',
 'C23': 'stateful histories against a copy model over recorded field values',
 'C24': 'stateful histories with recording actions and sources',
 'C25': 'stateful differential against list/dict; recorded broadcasts',
 'C26': 'generated access sequences in fresh subprocesses and in-process',
 'C27': 'differential against code-point arithmetic and min/max',
 'C29': 'random schemas and histories; every document recomputed from itself',
 'C30': 'random schemas and histories, differential against the fields used alone',
 'C31': 'random schemas and histories against a multiset model of shared pools',
 'C28': 'generated emitter classes and trees, recorded calls against a dispatch model',
}
