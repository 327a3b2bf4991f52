"""What decides each property (one line each)."""
TECH = {
 'C01': 'abstract interpretation of the schema classes over a finite domain of value types (one abstract value per type and relevant configuration)',
 'C02': 'abstract interpretation; lengths are abstract up to their order relation to the limits, all orderings enumerated',
 'C03': 'abstract interpretation; numbers and array elements are abstract up to their order relation to the bounds, all orderings enumerated',
 'C04': 'abstract interpretation over all orderings of shape entries and limits per dimension',
 'C05': 'abstract interpretation over all equality patterns of dimension sizes and lengths of independent variables',
 'C06': 'abstract interpretation of the serialiser/deserialiser pair with opaque option values',
 'C07': 'abstract interpretation with hash as an injective uninterpreted function of its input text; pairwise comparison of all option configurations',
 'C08': 'abstract interpretation of validate() over trees with abstract leaf states (empty / conforming / violating)',
 'C09': 'abstract interpretation following exceptional flow through nested nodes',
 'C10': 'abstract interpretation over all leaf-state assignments of a family of tree shapes',
 'C11': 'typestate analysis by abstract interpretation (set / replace / clear transitions of every node kind)',
 'C12': 'abstract interpretation with opaque leaf values (provenance of each exported value)',
 'C13': 'abstract interpretation with opaque leaf values, abstract earlier states',
 'C14': 'abstract interpretation of attribute and item protocol methods',
 'C15': 'abstract interpretation with alias tracking of arrays and containers',
 'C16': 'abstract interpretation of the copying functions over all backend pairs, opaque values',
 'C17': 'abstract interpretation with the clock as an effect source (taint of set_on_create values)',
 'C18': 'class-table exhaustiveness query over the syntax trees plus abstract interpretation of tree construction',
 'C19': 'abstract interpretation of writer/reader pairs with opaque values and a type/dtype-level model of the storage libraries',
 'C20': 'abstract interpretation of save/load pairs over tree shapes with opaque values and a model of the file formats',
 'C21': 'typestate analysis by abstract interpretation: all operation sequences up to a bound between saves and loads',
 'C22': 'effect-order analysis by abstract interpretation (validation precedes every write effect on all paths)',
 'C23': 'abstract interpretation over all combinations of requirements, schema match and validity',
 'C24': 'effect analysis by abstract interpretation (write and create effects against path existence)',
 'C25': 'abstract interpretation with an opaque path: all string tests the code can make on it, both ways',
 'C26': 'effect analysis by abstract interpretation (paths of all file effects)',
 'C27': 'typestate analysis of PseudoStorage by abstract interpretation',
 'C28': 'typestate and effect analysis of PseudoStorage by abstract interpretation, exceptional exits included',
 'C29': 'effect analysis by abstract interpretation (absence of file effects)',
 'C30': 'purity analysis by abstract interpretation (heap and file state before and after)',
 'C31': 'alias/escape analysis by abstract interpretation (disjointness of reachable mutable state)',
 'C32': 'abstract interpretation of the printing methods with opaque values',
 'C33': 'effect analysis by abstract interpretation (who may write, and when)',
 'C34': 'abstract interpretation with a model of h5py dataset shape limits',
 'C36': 'typestate analysis by abstract interpretation: sequences of saves (accepted, refused, repeated) with the heap compared before and after',
 'C37': 'module and class-table queries over the sources plus abstract interpretation of the listed entry points',
 'C38': 'effect analysis by abstract interpretation (stores into objects reachable from arguments)',
 'C39': 'alias analysis by abstract interpretation (identity of held node references across operations)',
 'C35': 'abstract interpretation of every raising operation and of the error text, opaque hashes and paths traced into the text',
}
