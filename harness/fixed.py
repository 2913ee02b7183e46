import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = """W01 5cf2c6a completing a struct of 64 fields overflowed a shift
S02 9ecdf25 NonZero integers carried the plain integer's operations (Default and parse could make zero)
S02 4161af6 paths, PhantomData, RandomState and ConstTypeId carried another type's operations
S04 8086877 Weak<T> carried Arc's operations; Arc/Weak/NonNull were named without their pointee
S02 3f7d168 cloning lists, maps and slices through the shape was wrong or missing
S05 4380d7f HashMap<K,V,S> used the default hasher whatever S was, and equal maps hashed differently
S02 4a8c7a3 tuples were never dropped, claimed Debug they lacked, compared wrongly
S03 5e0c85b array get_item_ptr returned the wrong element
S02 aca8ae9 slices reported marker traits of their element
W03 d0dfd8f Wip leaked or dropped twice what was initialised
W02 a811f5e Wip panicked, lost or invented values on operations that do not fit
S04 f5f9bd1 Peek comparison and map lookup did not check the type
W03 41dd13c put_peek duplicated the value instead of cloning it
S02 ddf4e08 clone_into cloned the reference, not the value
S04 926f176 one-element tuples and &Path were named as another type
W04 16148c5 invariants (and container attributes) declared on enums were ignored
J02 f603bb3 JSON integers lost digits through f64, exponents and malformed numbers panicked
W05 0119c94 numbers beyond 64-bit limits saturated; negative non-zero integers were refused
J02 0a7266d JSON string escapes were not decoded; malformed strings were accepted
J03 d7afaa4 JSON parser panicked on mismatched documents, ignored trailing text and refused top-level options
J04 a262f4b renamed fields were still matched by their original name
J03 d886acf skipped values were not checked and could overflow the stack; error rendering underflowed
J01 0613870 NaN/inf and unescaped map keys were emitted; enum variant fields lost names or renames
J04 daab2a3 escapes in a rename were doubled
M02 86e6999 i8, i16 and negative integers did not decode, fixints, floats, bin and ext could not be skipped
M03 86e6999 a repeated key panicked, deep nesting in a skipped value overflowed the stack
T01 08d7f7d options and enum payloads left builder frames open; a missing option in a struct variant was an error
T02 11187cc floats were truncated to integers or saturated to inf
T02 5067c55 todo!() panics for smart pointers and arrays of tables; a bare variant name was accepted for variants with fields
T01 ea175ea arrays of tables did not decode as lists
Y01 f1d195f negative numbers wrapped to u64, other types hit todo!()
Y01 b60358e deeply nested collections overflowed the stack
U01 68bd9fc malformed bracket keys reached fields; deeply nested keys overflowed the stack
A01 eb64568 later positional arguments never reached later positional fields
A01 c3f9352 surplus positional arguments were dropped silently
P01 9da3b0d sensitive fields of enum variants were printed
P01 3a53875 sensitive fields inside arrays, slices and smart pointers were printed through Debug
P02 a555fc2 repeated zero-sized values were printed as a cycle
P02 2359e80 the bracket of a value cut at the maximum depth stayed open
P02 b85799f the first line of a byte list ignored its indentation, the colours of bytes were never reset
P02 9f8001a a nested value with doc comments lost its indentation
P02 5c272e5 map entries were not printed
S01 53496b6 the derive took a list of attributes that begins with a rename as the name
S01 12052a9 payload types of enum variants lost the spaces between their words
S01 4fcad41 raw identifiers were named with r#, repr(C) enums lost their explicit discriminants
S01 7f0c4b1 the derive panicked on an enum whose last discriminant is i64::MAX
S01 6e4fcbb raw strings in doc attributes were dropped
S04 b599f1a &Utf8Path was named as Utf8Path
S02 690eeb2 slices and arrays fed a hasher their elements without the length their own implementations begin with
A01 2f1bc8b a positional flag that was neither true nor false was taken for false
S04 8d4b9f8 equal shapes described by different crates hashed differently
S02 fd34d35 a HashMap whose hasher is not Send, Sync or Unpin was described as Send, Sync and Unpin"""
def main():
    k = os.path.join(V, "known_findings.json")
    d = json.load(open(k))
    d["fixed"] = [f"fixed: property={p} {c} {w}" for p, c, w in (l.split(" ", 2) for l in F.splitlines())]
    json.dump(d, open(k, "w"), indent=1)
main()
