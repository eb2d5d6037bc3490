PROP="P25"
EDITS=[("crates/mirror-mirror/src/tuple.rs","""pub struct TupleValue {
    fields: Vec<Value>,
}""","""pub struct TupleValue {
    // tuples are short
    #[cfg_attr(feature = "speedy", speedy(length_type = u8))]
    pub(crate) fields: Vec<Value>,
}""")]
NEEDS="storing a dynamic tuple of more than 255 fields with speedy"
BREAKS="it cannot be stored"
DEPS='speedy = "0.8"'
MAIN='''
use mirror_mirror::{tuple::TupleValue, Value};
use speedy::{Readable, Writable};
fn main() {
    for n in [0usize, 3, 300] {
        let mut t = TupleValue::new();
        for i in 0..n {
            t.push_field(i);
        }
        let v = Value::TupleValue(t);
        let b = v.write_to_vec().unwrap();
        assert_eq!(Value::read_from_buffer(&b).unwrap(), v);
    }
}
'''
