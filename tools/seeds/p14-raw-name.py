PROP="P14"
EDITS=[("crates/mirror-mirror/src/key_path.rs","""            NamedOrNumbered::Named(field) => write!(f, ".{field}"),""","""            NamedOrNumbered::Named(field) => {
                write!(f, ".{}", field.strip_prefix("r#").unwrap_or(field))
            }""")]
NEEDS="a field key whose name starts with r#"
BREAKS="the displayed path does not have the key's name"
MAIN='''
use mirror_mirror::key_path::KeyPath;
fn main() {
    let p = KeyPath::default().field("r#type").field("type");
    assert_eq!(p.to_string(), ".r#type.type");
}
'''
