//! The AST of the crate written in the notation of the specification (GqlAst.tla).
use graphql_parser::query as q;
use graphql_parser::schema as s;
use graphql_parser::Pos;
use q::Text;
use std::fmt::Write;

pub struct D {
    pub out: String,
    /// write every position as [0,0]
    pub nopos: bool,
}

impl D {
    pub fn new(nopos: bool) -> D {
        D { out: String::new(), nopos }
    }
    fn raw(&mut self, s: &str) {
        self.out.push_str(s)
    }
    pub fn text(&mut self, s: &str) {
        self.out.push('[');
        let mut first = true;
        for c in s.chars() {
            if !first {
                self.out.push(',');
            }
            first = false;
            write!(self.out, "{}", c as u32).unwrap();
        }
        self.out.push(']');
    }
    fn opt_text(&mut self, s: Option<&str>) {
        self.raw("[");
        if let Some(s) = s {
            self.text(s);
        }
        self.raw("]");
    }
    pub fn pos(&mut self, p: Pos) {
        if self.nopos {
            self.raw("[0,0]");
        } else {
            write!(self.out, "[{},{}]", p.line, p.column).unwrap();
        }
    }
    fn tag(&mut self, t: &str) {
        self.out.push_str("[\"");
        self.out.push_str(t);
        self.out.push_str("\"");
    }
    fn c(&mut self) {
        self.out.push(',');
    }
    fn end(&mut self) {
        self.out.push(']');
    }
    pub fn list<X>(&mut self, xs: &[X], mut f: impl FnMut(&mut D, &X)) {
        self.raw("[");
        for (i, x) in xs.iter().enumerate() {
            if i > 0 {
                self.c();
            }
            f(self, x);
        }
        self.raw("]");
    }

    // ---------------------------------------------------------------- shared
    pub fn value<'a, T: Text<'a>>(&mut self, v: &q::Value<'a, T>) {
        use q::Value::*;
        match v {
            Variable(n) => {
                self.tag("var");
                self.c();
                self.text(n.as_ref());
            }
            Int(n) => {
                self.tag("int");
                self.c();
                let t = n.as_i64().map(|n| n.to_string()).unwrap_or_default();
                self.text(&t);
            }
            Float(x) => {
                self.tag("float");
                write!(self.out, ",\"{:016x}\"", x.to_bits()).unwrap();
            }
            String(x) => {
                self.tag("str");
                self.c();
                self.text(x);
            }
            Boolean(b) => {
                self.tag("bool");
                write!(self.out, ",\"{}\"", b).unwrap();
            }
            Null => self.tag("null"),
            Enum(n) => {
                self.tag("enumv");
                self.c();
                self.text(n.as_ref());
            }
            List(xs) => {
                self.tag("list");
                self.c();
                self.list(xs, |d, x| d.value(x));
            }
            Object(m) => {
                self.tag("obj");
                self.c();
                let ms: Vec<_> = m.iter().collect();
                self.list(&ms, |d, (k, v)| {
                    d.raw("[");
                    d.text(k.as_ref());
                    d.c();
                    d.value(v);
                    d.raw("]");
                });
            }
        }
        self.end();
    }
    fn opt_value<'a, T: Text<'a>>(&mut self, v: &Option<q::Value<'a, T>>) {
        self.raw("[");
        if let Some(v) = v {
            self.value(v);
        }
        self.raw("]");
    }
    fn args<'a, T: Text<'a>>(&mut self, args: &[(T::Value, q::Value<'a, T>)]) {
        self.list(args, |d, (k, v)| {
            d.raw("[");
            d.text(k.as_ref());
            d.c();
            d.value(v);
            d.raw("]");
        });
    }
    pub fn directive<'a, T: Text<'a>>(&mut self, x: &q::Directive<'a, T>) {
        self.tag("dir");
        self.c();
        self.pos(x.position);
        self.c();
        self.text(x.name.as_ref());
        self.c();
        self.args::<T>(&x.arguments);
        self.end();
    }
    fn directives<'a, T: Text<'a>>(&mut self, xs: &[q::Directive<'a, T>]) {
        self.list(xs, |d, x| d.directive(x));
    }
    pub fn typ<'a, T: Text<'a>>(&mut self, t: &q::Type<'a, T>) {
        match t {
            q::Type::NamedType(n) => {
                self.tag("named");
                self.c();
                self.text(n.as_ref());
            }
            q::Type::ListType(t) => {
                self.tag("listof");
                self.c();
                self.typ(t);
            }
            q::Type::NonNullType(t) => {
                self.tag("nonnull");
                self.c();
                self.typ(t);
            }
        }
        self.end();
    }

    // ----------------------------------------------------------------- query
    pub fn qdoc<'a, T: Text<'a>>(&mut self, x: &q::Document<'a, T>) {
        self.list(&x.definitions, |d, x| d.qdef(x));
    }
    pub fn qdef<'a, T: Text<'a>>(&mut self, x: &q::Definition<'a, T>) {
        match x {
            q::Definition::Operation(o) => self.operation(o),
            q::Definition::Fragment(f) => self.fragment(f),
        }
    }
    pub fn fragment<'a, T: Text<'a>>(&mut self, f: &q::FragmentDefinition<'a, T>) {
        let q::TypeCondition::On(cond) = &f.type_condition;
        self.tag("fragment");
        self.c();
        self.pos(f.position);
        self.c();
        self.text(f.name.as_ref());
        self.c();
        self.text(cond.as_ref());
        self.c();
        self.directives(&f.directives);
        self.c();
        self.selset(&f.selection_set);
        self.end();
    }
    pub fn operation<'a, T: Text<'a>>(&mut self, x: &q::OperationDefinition<'a, T>) {
        use q::OperationDefinition::*;
        match x {
            SelectionSet(s) => {
                self.tag("anon");
                self.c();
                self.selset(s);
                self.end();
            }
            Query(o) => self.op("query", o.position, &o.name, &o.variable_definitions, &o.directives, &o.selection_set),
            Mutation(o) => self.op("mutation", o.position, &o.name, &o.variable_definitions, &o.directives, &o.selection_set),
            Subscription(o) => {
                self.op("subscription", o.position, &o.name, &o.variable_definitions, &o.directives, &o.selection_set)
            }
        }
    }
    fn op<'a, T: Text<'a>>(
        &mut self,
        tag: &str,
        p: Pos,
        name: &Option<T::Value>,
        vars: &[q::VariableDefinition<'a, T>],
        dirs: &[q::Directive<'a, T>],
        sel: &q::SelectionSet<'a, T>,
    ) {
        self.tag(tag);
        self.c();
        self.pos(p);
        self.c();
        self.opt_text(name.as_ref().map(|n| n.as_ref()));
        self.c();
        self.list(vars, |d, v| d.vardef(v));
        self.c();
        self.directives(dirs);
        self.c();
        self.selset(sel);
        self.end();
    }
    pub fn vardef<'a, T: Text<'a>>(&mut self, v: &q::VariableDefinition<'a, T>) {
        self.tag("vardef");
        self.c();
        self.pos(v.position);
        self.c();
        self.text(v.name.as_ref());
        self.c();
        self.typ(&v.var_type);
        self.c();
        self.opt_value(&v.default_value);
        self.end();
    }
    pub fn selset<'a, T: Text<'a>>(&mut self, x: &q::SelectionSet<'a, T>) {
        self.tag("sel");
        self.c();
        self.pos(x.span.0);
        self.c();
        self.pos(x.span.1);
        self.c();
        self.list(&x.items, |d, x| d.selection(x));
        self.end();
    }
    pub fn selection<'a, T: Text<'a>>(&mut self, x: &q::Selection<'a, T>) {
        match x {
            q::Selection::Field(f) => {
                self.tag("field");
                self.c();
                self.pos(f.position);
                self.c();
                self.opt_text(f.alias.as_ref().map(|n| n.as_ref()));
                self.c();
                self.text(f.name.as_ref());
                self.c();
                self.args::<T>(&f.arguments);
                self.c();
                self.directives(&f.directives);
                self.c();
                self.selset(&f.selection_set);
                self.end();
            }
            q::Selection::FragmentSpread(f) => {
                self.tag("spread");
                self.c();
                self.pos(f.position);
                self.c();
                self.text(f.fragment_name.as_ref());
                self.c();
                self.directives(&f.directives);
                self.end();
            }
            q::Selection::InlineFragment(f) => {
                self.tag("inline");
                self.c();
                self.pos(f.position);
                self.c();
                self.opt_text(f.type_condition.as_ref().map(|q::TypeCondition::On(n)| n.as_ref()));
                self.c();
                self.directives(&f.directives);
                self.c();
                self.selset(&f.selection_set);
                self.end();
            }
        }
    }

    // ---------------------------------------------------------------- schema
    pub fn sdoc<'a, T: Text<'a>>(&mut self, x: &s::Document<'a, T>) {
        self.list(&x.definitions, |d, x| d.sdef(x));
    }
    fn names<X: AsRef<str>>(&mut self, xs: &[X]) {
        self.list(xs, |d, x| d.text(x.as_ref()));
    }
    fn start(&mut self, tag: &str, p: Pos) {
        self.tag(tag);
        self.c();
        self.pos(p);
        self.c();
    }
    pub fn sfield<'a, T: Text<'a>>(&mut self, x: &s::Field<'a, T>) {
        self.start("sfield", x.position);
        self.opt_text(x.description.as_deref());
        self.c();
        self.text(x.name.as_ref());
        self.c();
        self.list(&x.arguments, |d, x| d.inval(x));
        self.c();
        self.typ(&x.field_type);
        self.c();
        self.directives(&x.directives);
        self.end();
    }
    pub fn inval<'a, T: Text<'a>>(&mut self, x: &s::InputValue<'a, T>) {
        self.start("inval", x.position);
        self.opt_text(x.description.as_deref());
        self.c();
        self.text(x.name.as_ref());
        self.c();
        self.typ(&x.value_type);
        self.c();
        self.opt_value(&x.default_value);
        self.c();
        self.directives(&x.directives);
        self.end();
    }
    pub fn enumval<'a, T: Text<'a>>(&mut self, x: &s::EnumValue<'a, T>) {
        self.start("enumval", x.position);
        self.opt_text(x.description.as_deref());
        self.c();
        self.text(x.name.as_ref());
        self.c();
        self.directives(&x.directives);
        self.end();
    }
    pub fn sdef<'a, T: Text<'a>>(&mut self, x: &s::Definition<'a, T>) {
        match x {
            s::Definition::SchemaDefinition(x) => {
                self.start("schema", x.position);
                self.directives(&x.directives);
                for o in [&x.query, &x.mutation, &x.subscription] {
                    self.c();
                    self.opt_text(o.as_ref().map(|n| n.as_ref()));
                }
                self.end();
            }
            s::Definition::TypeDefinition(x) => self.typedef(x),
            s::Definition::TypeExtension(x) => self.typeext(x),
            s::Definition::DirectiveDefinition(x) => {
                self.start("directive", x.position);
                self.opt_text(x.description.as_deref());
                self.c();
                self.text(x.name.as_ref());
                self.c();
                self.list(&x.arguments, |d, x| d.inval(x));
                write!(self.out, ",\"{}\",", x.repeatable).unwrap();
                self.list(&x.locations, |d, x| d.text(x.as_str()));
                self.end();
            }
        }
    }
    fn typedef<'a, T: Text<'a>>(&mut self, x: &s::TypeDefinition<'a, T>) {
        macro_rules! head {
            ($t:expr, $x:expr) => {
                self.start($t, $x.position);
                self.opt_text($x.description.as_deref());
                self.c();
                self.text($x.name.as_ref());
                self.c();
            };
        }
        match x {
            s::TypeDefinition::Scalar(x) => {
                head!("scalar", x);
                self.directives(&x.directives);
            }
            s::TypeDefinition::Object(x) => {
                head!("type", x);
                self.names(&x.implements_interfaces);
                self.c();
                self.directives(&x.directives);
                self.c();
                self.list(&x.fields, |d, x| d.sfield(x));
            }
            s::TypeDefinition::Interface(x) => {
                head!("interface", x);
                self.names(&x.implements_interfaces);
                self.c();
                self.directives(&x.directives);
                self.c();
                self.list(&x.fields, |d, x| d.sfield(x));
            }
            s::TypeDefinition::Union(x) => {
                head!("union", x);
                self.directives(&x.directives);
                self.c();
                self.names(&x.types);
            }
            s::TypeDefinition::Enum(x) => {
                head!("enum", x);
                self.directives(&x.directives);
                self.c();
                self.list(&x.values, |d, x| d.enumval(x));
            }
            s::TypeDefinition::InputObject(x) => {
                head!("input", x);
                self.directives(&x.directives);
                self.c();
                self.list(&x.fields, |d, x| d.inval(x));
            }
        }
        self.end();
    }
    fn typeext<'a, T: Text<'a>>(&mut self, x: &s::TypeExtension<'a, T>) {
        macro_rules! head {
            ($t:expr, $x:expr) => {
                self.start($t, $x.position);
                self.text($x.name.as_ref());
                self.c();
            };
        }
        match x {
            s::TypeExtension::Scalar(x) => {
                head!("scalar+", x);
                self.directives(&x.directives);
            }
            s::TypeExtension::Object(x) => {
                head!("type+", x);
                self.names(&x.implements_interfaces);
                self.c();
                self.directives(&x.directives);
                self.c();
                self.list(&x.fields, |d, x| d.sfield(x));
            }
            s::TypeExtension::Interface(x) => {
                head!("interface+", x);
                self.names(&x.implements_interfaces);
                self.c();
                self.directives(&x.directives);
                self.c();
                self.list(&x.fields, |d, x| d.sfield(x));
            }
            s::TypeExtension::Union(x) => {
                head!("union+", x);
                self.directives(&x.directives);
                self.c();
                self.names(&x.types);
            }
            s::TypeExtension::Enum(x) => {
                head!("enum+", x);
                self.directives(&x.directives);
                self.c();
                self.list(&x.values, |d, x| d.enumval(x));
            }
            s::TypeExtension::InputObject(x) => {
                head!("input+", x);
                self.directives(&x.directives);
                self.c();
                self.list(&x.fields, |d, x| d.inval(x));
            }
        }
        self.end();
    }
}
