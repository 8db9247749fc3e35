//! Every printable node of a document: its kind, its own text, and the node found when that text
//! is put where such a node belongs and parsed again (both without positions).
use crate::dump::D;
use graphql_parser::query as q;
use graphql_parser::schema as s;
use graphql_parser::{parse_query, parse_schema};
use q::Text;
use std::fmt::Display;

pub struct Node {
    pub kind: &'static str,
    pub text: String,
    pub node: String,
    pub back: Result<String, String>,
}

fn dump(f: impl FnOnce(&mut D)) -> String {
    let mut d = D::new(true);
    f(&mut d);
    d.out
}

type QDoc = q::Document<'static, String>;
type SDoc = s::Document<'static, String>;

fn readq(text: &str, f: impl FnOnce(&QDoc) -> Option<String>) -> Result<String, String> {
    match parse_query::<String>(text) {
        Ok(d) => f(&d.into_static()).ok_or_else(|| "not the same kind of node".to_string()),
        Err(e) => Err(e.to_string()),
    }
}
fn reads(text: &str, f: impl FnOnce(&SDoc) -> Option<String>) -> Result<String, String> {
    match parse_schema::<String>(text) {
        Ok(d) => f(&d.into_static()).ok_or_else(|| "not the same kind of node".to_string()),
        Err(e) => Err(e.to_string()),
    }
}
/// the selection set of the only definition, which must be anonymous
fn anon(d: &QDoc) -> Option<&q::SelectionSet<'static, String>> {
    match &d.definitions[..] {
        [q::Definition::Operation(q::OperationDefinition::SelectionSet(s))] => Some(s),
        _ => None,
    }
}
fn only_field(d: &QDoc) -> Option<&q::Field<'static, String>> {
    match &anon(d)?.items[..] {
        [q::Selection::Field(f)] => Some(f),
        _ => None,
    }
}
fn only_var(d: &QDoc) -> Option<&q::VariableDefinition<'static, String>> {
    match &d.definitions[..] {
        [q::Definition::Operation(q::OperationDefinition::Query(x))] if x.variable_definitions.len() == 1 => {
            Some(&x.variable_definitions[0])
        }
        _ => None,
    }
}

pub struct Walk {
    pub out: Vec<Node>,
}

impl Walk {
    fn put(
        &mut self,
        kind: &'static str,
        x: &impl Display,
        node: String,
        read: impl FnOnce(&str) -> Result<String, String>,
    ) {
        let text = x.to_string();
        let back = read(&text);
        self.out.push(Node { kind, text, node, back });
    }

    fn value<'a, T: Text<'a>>(&mut self, v: &q::Value<'a, T>) {
        self.put("Value", v, dump(|d| d.value(v)), |t| {
            readq(&format!("{{a(x:{})}}", t), |d| match &only_field(d)?.arguments[..] {
                [(_, v)] => Some(dump(|d| d.value(v))),
                _ => None,
            })
        });
        let copy = v.into_static();
        self.out.push(Node {
            kind: "into_static",
            text: copy.to_string(),
            node: dump(|d| d.value(v)),
            back: Ok(dump(|d| d.value(&copy))),
        });
        match v {
            q::Value::List(xs) => xs.iter().for_each(|x| self.value(x)),
            q::Value::Object(m) => m.values().for_each(|x| self.value(x)),
            _ => {}
        }
    }
    fn typ<'a, T: Text<'a>>(&mut self, x: &q::Type<'a, T>) {
        self.put("Type", x, dump(|d| d.typ(x)), |t| {
            readq(&format!("query($x:{}){{a}}", t), |d| Some(dump(|o| o.typ(&only_var(d).unwrap().var_type))))
        });
        match x {
            q::Type::ListType(t) | q::Type::NonNullType(t) => self.typ(t),
            _ => {}
        }
    }
    fn directives<'a, T: Text<'a>>(&mut self, xs: &[q::Directive<'a, T>]) {
        for x in xs {
            self.put("Directive", x, dump(|d| d.directive(x)), |t| {
                readq(&format!("{{a {}}}", t), |d| match &only_field(d)?.directives[..] {
                    [x] => Some(dump(|o| o.directive(x))),
                    _ => None,
                })
            });
            x.arguments.iter().for_each(|a| self.value(&a.1));
        }
    }
    fn condition<'a, T: Text<'a>>(&mut self, x: &q::TypeCondition<'a, T>) {
        let q::TypeCondition::On(n) = x;
        self.put("TypeCondition", x, dump(|d| d.text(n.as_ref())), |t| {
            readq(&format!("{{... {} {{a}}}}", t), |d| match &anon(d)?.items[..] {
                [q::Selection::InlineFragment(f)] => {
                    f.type_condition.as_ref().map(|q::TypeCondition::On(n)| dump(|o| o.text(n)))
                }
                _ => None,
            })
        });
    }
    fn selset<'a, T: Text<'a>>(&mut self, x: &q::SelectionSet<'a, T>) {
        if x.items.is_empty() {
            return;
        }
        self.put("SelectionSet", x, dump(|d| d.selset(x)), |t| {
            readq(t, |d| anon(d).map(|s| dump(|o| o.selset(s))))
        });
        for it in &x.items {
            let read = |t: &str| {
                readq(&format!("{{{}}}", t), |d| match &anon(d)?.items[..] {
                    [x] => Some(dump(|o| o.selection(x))),
                    _ => None,
                })
            };
            let node = dump(|d| d.selection(it));
            match it {
                q::Selection::Field(f) => {
                    self.put("Field", f, node, read);
                    f.arguments.iter().for_each(|a| self.value(&a.1));
                    self.directives(&f.directives);
                    self.selset(&f.selection_set);
                }
                q::Selection::InlineFragment(f) => {
                    self.put("InlineFragment", f, node, read);
                    if let Some(c) = &f.type_condition {
                        self.condition(c);
                    }
                    self.directives(&f.directives);
                    self.selset(&f.selection_set);
                }
                q::Selection::FragmentSpread(f) => {
                    self.put("FragmentSpread", f, node, read);
                    self.directives(&f.directives);
                }
            }
        }
    }
    fn vars<'a, T: Text<'a>>(&mut self, xs: &[q::VariableDefinition<'a, T>]) {
        for x in xs {
            self.put("VariableDefinition", x, dump(|d| d.vardef(x)), |t| {
                readq(&format!("query({}){{a}}", t), |d| Some(dump(|o| o.vardef(only_var(d).unwrap()))))
            });
            self.typ(&x.var_type);
            if let Some(v) = &x.default_value {
                self.value(v);
            }
        }
    }
    pub fn qdoc<'a, T: Text<'a>>(&mut self, x: &q::Document<'a, T>) {
        self.put("Document", x, dump(|d| d.qdoc(x)), |t| readq(t, |d| Some(dump(|o| o.qdoc(d)))));
        for x in &x.definitions {
            let read = |t: &str| {
                readq(t, |d| match &d.definitions[..] {
                    [x] => Some(dump(|o| o.qdef(x))),
                    _ => None,
                })
            };
            let node = dump(|d| d.qdef(x));
            self.put("Definition", x, node.clone(), read);
            match x {
                q::Definition::Operation(o) => {
                    self.put("OperationDefinition", o, node.clone(), read);
                    use q::OperationDefinition::*;
                    match o {
                        SelectionSet(s) => self.selset(s),
                        Query(x) => {
                            self.put("Query", x, node, read);
                            self.vars(&x.variable_definitions);
                            self.directives(&x.directives);
                            self.selset(&x.selection_set);
                        }
                        Mutation(x) => {
                            self.put("Mutation", x, node, read);
                            self.vars(&x.variable_definitions);
                            self.directives(&x.directives);
                            self.selset(&x.selection_set);
                        }
                        Subscription(x) => {
                            self.put("Subscription", x, node, read);
                            self.vars(&x.variable_definitions);
                            self.directives(&x.directives);
                            self.selset(&x.selection_set);
                        }
                    }
                }
                q::Definition::Fragment(x) => {
                    self.put("FragmentDefinition", x, node, read);
                    self.condition(&x.type_condition);
                    self.directives(&x.directives);
                    self.selset(&x.selection_set);
                }
            }
        }
    }

    fn inval<'a, T: Text<'a>>(&mut self, x: &s::InputValue<'a, T>) {
        self.put("InputValue", x, dump(|d| d.inval(x)), |t| {
            reads(&format!("input A{{{}}}", t), |d| match &d.definitions[..] {
                [s::Definition::TypeDefinition(s::TypeDefinition::InputObject(o))] if o.fields.len() == 1 => {
                    Some(dump(|d| d.inval(&o.fields[0])))
                }
                _ => None,
            })
        });
        self.typ(&x.value_type);
        if let Some(v) = &x.default_value {
            self.value(v);
        }
        self.directives(&x.directives);
    }
    fn fields<'a, T: Text<'a>>(&mut self, xs: &[s::Field<'a, T>]) {
        for x in xs {
            self.put("SchemaField", x, dump(|d| d.sfield(x)), |t| {
                reads(&format!("type A{{{}}}", t), |d| match &d.definitions[..] {
                    [s::Definition::TypeDefinition(s::TypeDefinition::Object(o))] if o.fields.len() == 1 => {
                        Some(dump(|d| d.sfield(&o.fields[0])))
                    }
                    _ => None,
                })
            });
            x.arguments.iter().for_each(|a| self.inval(a));
            self.typ(&x.field_type);
            self.directives(&x.directives);
        }
    }
    pub fn sdoc<'a, T: Text<'a>>(&mut self, x: &s::Document<'a, T>) {
        self.put("Document", x, dump(|d| d.sdoc(x)), |t| reads(t, |d| Some(dump(|o| o.sdoc(d)))));
        for x in &x.definitions {
            let read = |t: &str| {
                reads(t, |d| match &d.definitions[..] {
                    [x] => Some(dump(|o| o.sdef(x))),
                    _ => None,
                })
            };
            let node = dump(|d| d.sdef(x));
            self.put("Definition", x, node.clone(), read);
            macro_rules! put {
                ($k:expr, $x:expr) => {
                    self.put($k, $x, node.clone(), read)
                };
            }
            match x {
                s::Definition::SchemaDefinition(x) => {
                    put!("SchemaDefinition", x);
                    self.directives(&x.directives);
                }
                s::Definition::TypeDefinition(t) => {
                    put!("TypeDefinition", t);
                    use s::TypeDefinition::*;
                    match t {
                        Scalar(x) => {
                            put!("ScalarType", x);
                            self.directives(&x.directives);
                        }
                        Object(x) => {
                            put!("ObjectType", x);
                            self.directives(&x.directives);
                            self.fields(&x.fields);
                        }
                        Interface(x) => {
                            put!("InterfaceType", x);
                            self.directives(&x.directives);
                            self.fields(&x.fields);
                        }
                        Union(x) => {
                            put!("UnionType", x);
                            self.directives(&x.directives);
                        }
                        Enum(x) => {
                            put!("EnumType", x);
                            self.directives(&x.directives);
                            x.values.iter().for_each(|v| self.directives(&v.directives));
                        }
                        InputObject(x) => {
                            put!("InputObjectType", x);
                            self.directives(&x.directives);
                            x.fields.iter().for_each(|v| self.inval(v));
                        }
                    }
                }
                s::Definition::TypeExtension(t) => {
                    put!("TypeExtension", t);
                    use s::TypeExtension::*;
                    match t {
                        Scalar(x) => {
                            put!("ScalarTypeExtension", x);
                            self.directives(&x.directives);
                        }
                        Object(x) => {
                            put!("ObjectTypeExtension", x);
                            self.directives(&x.directives);
                            self.fields(&x.fields);
                        }
                        Interface(x) => {
                            put!("InterfaceTypeExtension", x);
                            self.directives(&x.directives);
                            self.fields(&x.fields);
                        }
                        Union(x) => {
                            put!("UnionTypeExtension", x);
                            self.directives(&x.directives);
                        }
                        Enum(x) => {
                            put!("EnumTypeExtension", x);
                            self.directives(&x.directives);
                            x.values.iter().for_each(|v| self.directives(&v.directives));
                        }
                        InputObject(x) => {
                            put!("InputObjectTypeExtension", x);
                            self.directives(&x.directives);
                            x.fields.iter().for_each(|v| self.inval(v));
                        }
                    }
                }
                s::Definition::DirectiveDefinition(x) => {
                    put!("DirectiveDefinition", x);
                    x.arguments.iter().for_each(|v| self.inval(v));
                }
            }
        }
    }
}
