//! The other direction: an AST of the crate from the notation of the specification.
use crate::json::J;
use graphql_parser::query as q;
use graphql_parser::schema as s;
use graphql_parser::Pos;
use std::str::FromStr;

type S = String;

fn pos(j: &J) -> Pos {
    Pos { line: j.arr()[0].num() as usize, column: j.arr()[1].num() as usize }
}
fn opt<X>(j: &J, f: impl Fn(&J) -> X) -> Option<X> {
    j.arr().first().map(f)
}
fn all<X>(j: &J, f: impl Fn(&J) -> X) -> Vec<X> {
    j.arr().iter().map(f).collect()
}
fn text(j: &J) -> String {
    j.text()
}

pub fn value(j: &J) -> q::Value<'static, S> {
    let a = j.arr();
    match a[0].str() {
        "var" => q::Value::Variable(text(&a[1])),
        // numbers can only be made from 32-bit values or by parsing
        "int" => match text(&a[1]).parse::<i32>() {
            Ok(n) => q::Value::Int(n.into()),
            Err(_) => parsed_number(&text(&a[1])),
        },
        "float" => q::Value::Float(text(&a[1]).parse().unwrap()),
        "str" => q::Value::String(text(&a[1])),
        "bool" => q::Value::Boolean(a[1].str() == "true"),
        "null" => q::Value::Null,
        "enumv" => q::Value::Enum(text(&a[1])),
        "list" => q::Value::List(all(&a[1], value)),
        "obj" => q::Value::Object(a[1].arr().iter().map(|m| (text(&m.arr()[0]), value(&m.arr()[1]))).collect()),
        t => panic!("value {}", t),
    }
}
fn parsed_number(t: &str) -> q::Value<'static, S> {
    let src = format!("{{a(x:{})}}", t);
    let doc = graphql_parser::parse_query::<S>(&src).unwrap().into_static();
    match &doc.definitions[0] {
        q::Definition::Operation(q::OperationDefinition::SelectionSet(s)) => match &s.items[0] {
            q::Selection::Field(f) => f.arguments[0].1.clone(),
            _ => unreachable!(),
        },
        _ => unreachable!(),
    }
}
fn arg(j: &J) -> (S, q::Value<'static, S>) {
    (text(&j.arr()[0]), value(&j.arr()[1]))
}
fn dir(j: &J) -> q::Directive<'static, S> {
    let a = j.arr();
    q::Directive { position: pos(&a[1]), name: text(&a[2]), arguments: all(&a[3], arg) }
}
fn typ(j: &J) -> q::Type<'static, S> {
    let a = j.arr();
    match a[0].str() {
        "named" => q::Type::NamedType(text(&a[1])),
        "listof" => q::Type::ListType(Box::new(typ(&a[1]))),
        _ => q::Type::NonNullType(Box::new(typ(&a[1]))),
    }
}

pub fn qdoc(j: &J) -> q::Document<'static, S> {
    q::Document { definitions: all(j, qdef) }
}
fn selset(j: &J) -> q::SelectionSet<'static, S> {
    let a = j.arr();
    q::SelectionSet { span: (pos(&a[1]), pos(&a[2])), items: all(&a[3], selection) }
}
fn selection(j: &J) -> q::Selection<'static, S> {
    let a = j.arr();
    match a[0].str() {
        "field" => q::Selection::Field(q::Field {
            position: pos(&a[1]),
            alias: opt(&a[2], text),
            name: text(&a[3]),
            arguments: all(&a[4], arg),
            directives: all(&a[5], dir),
            selection_set: selset(&a[6]),
        }),
        "inline" => q::Selection::InlineFragment(q::InlineFragment {
            position: pos(&a[1]),
            type_condition: opt(&a[2], |n| q::TypeCondition::On(text(n))),
            directives: all(&a[3], dir),
            selection_set: selset(&a[4]),
        }),
        _ => q::Selection::FragmentSpread(q::FragmentSpread {
            position: pos(&a[1]),
            fragment_name: text(&a[2]),
            directives: all(&a[3], dir),
        }),
    }
}
fn vardef(j: &J) -> q::VariableDefinition<'static, S> {
    let a = j.arr();
    q::VariableDefinition {
        position: pos(&a[1]),
        name: text(&a[2]),
        var_type: typ(&a[3]),
        default_value: opt(&a[4], value),
    }
}
fn qdef(j: &J) -> q::Definition<'static, S> {
    let a = j.arr();
    macro_rules! op {
        ($t:ident) => {
            q::Definition::Operation(q::OperationDefinition::$t(q::$t {
                position: pos(&a[1]),
                name: opt(&a[2], text),
                variable_definitions: all(&a[3], vardef),
                directives: all(&a[4], dir),
                selection_set: selset(&a[5]),
            }))
        };
    }
    match a[0].str() {
        "anon" => q::Definition::Operation(q::OperationDefinition::SelectionSet(selset(&a[1]))),
        "query" => op!(Query),
        "mutation" => op!(Mutation),
        "subscription" => op!(Subscription),
        _ => q::Definition::Fragment(q::FragmentDefinition {
            position: pos(&a[1]),
            name: text(&a[2]),
            type_condition: q::TypeCondition::On(text(&a[3])),
            directives: all(&a[4], dir),
            selection_set: selset(&a[5]),
        }),
    }
}

pub fn sdoc(j: &J) -> s::Document<'static, S> {
    s::Document { definitions: all(j, sdef) }
}
fn sfield(j: &J) -> s::Field<'static, S> {
    let a = j.arr();
    s::Field {
        position: pos(&a[1]),
        description: opt(&a[2], text),
        name: text(&a[3]),
        arguments: all(&a[4], inval),
        field_type: typ(&a[5]),
        directives: all(&a[6], dir),
    }
}
fn inval(j: &J) -> s::InputValue<'static, S> {
    let a = j.arr();
    s::InputValue {
        position: pos(&a[1]),
        description: opt(&a[2], text),
        name: text(&a[3]),
        value_type: typ(&a[4]),
        default_value: opt(&a[5], value),
        directives: all(&a[6], dir),
    }
}
fn enumval(j: &J) -> s::EnumValue<'static, S> {
    let a = j.arr();
    let mut v = s::EnumValue::new(text(&a[3]));
    v.position = pos(&a[1]);
    put(&mut v.description, opt(&a[2], text));
    put(&mut v.directives, all(&a[4], dir));
    v
}
trait Part {
    fn absent(&self) -> bool;
}
impl<X> Part for Vec<X> {
    fn absent(&self) -> bool {
        self.is_empty()
    }
}
impl<X> Part for Option<X> {
    fn absent(&self) -> bool {
        self.is_none()
    }
}
impl Part for bool {
    fn absent(&self) -> bool {
        !*self
    }
}
/// what is absent is left as the constructor made it
fn put<X: Part>(place: &mut X, x: X) {
    if !x.absent() {
        *place = x;
    }
}
// Built the way a user would: with `new`, then filling in what differs.
fn sdef(j: &J) -> s::Definition<'static, S> {
    let a = j.arr();
    macro_rules! def {
        ($ty:ident, $( $f:ident = $v:expr ),*) => {{
            let mut x = s::$ty::new(text(&a[3]));
            x.position = pos(&a[1]);
            put(&mut x.description, opt(&a[2], text));
            $( put(&mut x.$f, $v); )*
            x
        }};
    }
    macro_rules! ext {
        ($ty:ident, $( $f:ident = $v:expr ),*) => {{
            let mut x = s::$ty::new(text(&a[2]));
            x.position = pos(&a[1]);
            $( put(&mut x.$f, $v); )*
            x
        }};
    }
    use s::Definition::{TypeDefinition as TD, TypeExtension as TE};
    match a[0].str() {
        "schema" => {
            let mut x = s::SchemaDefinition::default();
            x.position = pos(&a[1]);
            put(&mut x.directives, all(&a[2], dir));
            put(&mut x.query, opt(&a[3], text));
            put(&mut x.mutation, opt(&a[4], text));
            put(&mut x.subscription, opt(&a[5], text));
            s::Definition::SchemaDefinition(x)
        }
        "scalar" => TD(s::TypeDefinition::Scalar(def!(ScalarType, directives = all(&a[4], dir)))),
        "type" => TD(s::TypeDefinition::Object(def!(
            ObjectType,
            implements_interfaces = all(&a[4], text),
            directives = all(&a[5], dir),
            fields = all(&a[6], sfield)
        ))),
        "interface" => TD(s::TypeDefinition::Interface(def!(
            InterfaceType,
            implements_interfaces = all(&a[4], text),
            directives = all(&a[5], dir),
            fields = all(&a[6], sfield)
        ))),
        "union" => TD(s::TypeDefinition::Union(def!(
            UnionType,
            directives = all(&a[4], dir),
            types = all(&a[5], text)
        ))),
        "enum" => TD(s::TypeDefinition::Enum(def!(
            EnumType,
            directives = all(&a[4], dir),
            values = all(&a[5], enumval)
        ))),
        "input" => TD(s::TypeDefinition::InputObject(def!(
            InputObjectType,
            directives = all(&a[4], dir),
            fields = all(&a[5], inval)
        ))),
        "scalar+" => TE(s::TypeExtension::Scalar(ext!(ScalarTypeExtension, directives = all(&a[3], dir)))),
        "type+" => TE(s::TypeExtension::Object(ext!(
            ObjectTypeExtension,
            implements_interfaces = all(&a[3], text),
            directives = all(&a[4], dir),
            fields = all(&a[5], sfield)
        ))),
        "interface+" => TE(s::TypeExtension::Interface(ext!(
            InterfaceTypeExtension,
            implements_interfaces = all(&a[3], text),
            directives = all(&a[4], dir),
            fields = all(&a[5], sfield)
        ))),
        "union+" => TE(s::TypeExtension::Union(ext!(
            UnionTypeExtension,
            directives = all(&a[3], dir),
            types = all(&a[4], text)
        ))),
        "enum+" => TE(s::TypeExtension::Enum(ext!(
            EnumTypeExtension,
            directives = all(&a[3], dir),
            values = all(&a[4], enumval)
        ))),
        "input+" => TE(s::TypeExtension::InputObject(ext!(
            InputObjectTypeExtension,
            directives = all(&a[3], dir),
            fields = all(&a[4], inval)
        ))),
        "directive" => s::Definition::DirectiveDefinition(def!(
            DirectiveDefinition,
            arguments = all(&a[4], inval),
            repeatable = a[5].str() == "true",
            locations = all(&a[6], |l| s::DirectiveLocation::from_str(&text(l)).unwrap())
        )),
        t => panic!("definition {}", t),
    }
}
