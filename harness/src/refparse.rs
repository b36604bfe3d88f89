//! Independent recursive-descent parser for the SPARQL 1.1 grammar over the
//! tokens of `lex.rs`. Uses the crate's tree types only as data.

use crate::lex::{lex, Lexed, Num, T};
use nom_sparql::aggregate::*;
use nom_sparql::arithmetic::*;
use nom_sparql::call::*;
use nom_sparql::clauses::*;
use nom_sparql::data::*;
use nom_sparql::expression::functions::*;
use nom_sparql::expression::iri::*;
use nom_sparql::expression::*;
use nom_sparql::graph::*;
use nom_sparql::group::*;
use nom_sparql::literal::*;
use nom_sparql::node::*;
use nom_sparql::operations::*;
use nom_sparql::order::*;
use nom_sparql::path::*;
use nom_sparql::prologue::*;
use nom_sparql::quads::*;
use nom_sparql::query::ask::*;
use nom_sparql::query::construct::*;
use nom_sparql::query::describe::*;
use nom_sparql::query::select::*;
use nom_sparql::query::*;
use nom_sparql::triple::*;
use nom_sparql::update::*;
use nom_sparql::var::*;

#[derive(Debug, Clone)]
pub enum E {
    /// index of the offending token
    Syntax(usize),
    Unspecified(&'static str),
}
type R<X> = Result<X, E>;

pub struct Pr<'a> {
    lx: &'a Lexed,
    pub i: usize,
    pub max: usize,
    depth: usize,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Verdict {
    Accept(String),
    /// byte offset of the first token that cannot continue a well-formed text
    Reject(usize),
    Unspecified(&'static str),
}

impl<'a> Pr<'a> {
    pub fn new(lx: &'a Lexed) -> Pr<'a> {
        Pr { lx, i: 0, max: 0, depth: 0 }
    }
    fn t(&self) -> Option<&'a T> {
        self.lx.toks.get(self.i).map(|t| &t.t)
    }
    fn t2(&self) -> Option<&'a T> {
        self.lx.toks.get(self.i + 1).map(|t| &t.t)
    }
    fn adv(&mut self) {
        self.i += 1;
        self.max = self.max.max(self.i);
    }
    fn err<X>(&self) -> R<X> {
        Err(E::Syntax(self.i))
    }
    fn is_p(&self, p: &str) -> bool {
        matches!(self.t(), Some(T::P(q)) if *q == p)
    }
    fn is_p2(&self, p: &str) -> bool {
        matches!(self.t2(), Some(T::P(q)) if *q == p)
    }
    fn is_k(&self, k: &str) -> bool {
        matches!(self.t(), Some(T::Kw(q)) if q == k)
    }
    fn eat_p(&mut self, p: &str) -> bool {
        if self.is_p(p) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn eat_k(&mut self, k: &str) -> bool {
        if self.is_k(k) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn p(&mut self, p: &str) -> R<()> {
        if self.eat_p(p) {
            Ok(())
        } else {
            self.err()
        }
    }
    fn k(&mut self, k: &str) -> R<()> {
        if self.eat_k(k) {
            Ok(())
        } else {
            self.err()
        }
    }
    fn deeper(&mut self) -> R<()> {
        self.depth += 1;
        if self.depth > 400 {
            Err(E::Unspecified("very deep nesting"))
        } else {
            Ok(())
        }
    }

    // ---- terms ------------------------------------------------------------

    fn is_iri(&self) -> bool {
        matches!(self.t(), Some(T::Iri(_)) | Some(T::Pname(..)))
    }
    fn iri(&mut self) -> R<Iri> {
        let r = match self.t() {
            Some(T::Iri(s)) => Iri::Iri(s.clone()),
            Some(T::Pname(p, Some(l))) => {
                Iri::PrefixedName(PrefixedName::PnameLN { pn_prefix: p.clone(), pn_local: l.clone() })
            }
            Some(T::Pname(p, None)) => Iri::PrefixedName(PrefixedName::PnameNS(p.clone())),
            _ => return self.err(),
        };
        self.adv();
        Ok(r)
    }
    fn is_var(&self) -> bool {
        matches!(self.t(), Some(T::Var(..)))
    }
    fn var(&mut self) -> R<Var> {
        match self.t() {
            Some(T::Var('?', n)) => {
                self.adv();
                Ok(Var::QMark(n.clone()))
            }
            Some(T::Var(_, n)) => {
                self.adv();
                Ok(Var::Dollar(n.clone()))
            }
            _ => self.err(),
        }
    }
    fn var_or_iri(&mut self) -> R<VarOrIri> {
        if self.is_var() {
            Ok(VarOrIri::Var(self.var()?))
        } else {
            Ok(VarOrIri::Iri(self.iri()?))
        }
    }
    fn rdf_literal(&mut self) -> R<RdfLiteral> {
        match self.t() {
            Some(T::Str(s)) => {
                self.adv();
                let mut descriptor = None;
                if let Some(T::Lang(l)) = self.t() {
                    descriptor = Some(RdfLiteralDescriptor::LangTag(l.clone()));
                    self.adv();
                } else if self.eat_p("^^") {
                    descriptor = Some(RdfLiteralDescriptor::IriRef(self.iri()?));
                }
                Ok(RdfLiteral { literal: s.clone(), descriptor })
            }
            _ => self.err(),
        }
    }
    fn num(&mut self) -> R<NumericLiteral> {
        match self.t() {
            Some(T::Num(n)) => {
                let v = num_value(n)?;
                self.adv();
                Ok(v)
            }
            _ => self.err(),
        }
    }
    fn nil_ahead(&self) -> bool {
        self.is_p("(") && self.is_p2(")")
    }
    fn nil(&mut self) -> R<()> {
        self.p("(")?;
        if let Some(t) = self.lx.toks.get(self.i) {
            if t.comment_before && self.is_p(")") {
                return Err(E::Unspecified("comment inside ()"));
            }
        }
        self.p(")")
    }

    fn graph_term(&mut self) -> R<GraphTerm> {
        Ok(match self.t() {
            Some(T::Iri(_)) | Some(T::Pname(..)) => GraphTerm::Iri(self.iri()?),
            Some(T::Str(_)) => GraphTerm::RdfLiteral(self.rdf_literal()?),
            Some(T::Num(_)) => GraphTerm::NumericLiteral(self.num()?),
            Some(T::Kw(k)) if k == "TRUE" || k == "FALSE" => {
                self.adv();
                GraphTerm::BooleanLiteral(k == "TRUE")
            }
            Some(T::Bnode(l)) => {
                self.adv();
                GraphTerm::BlankNode(BlankNode::Label(l.clone()))
            }
            Some(T::P("[")) if self.is_p2("]") => {
                self.adv();
                if self.lx.toks[self.i].comment_before {
                    return Err(E::Unspecified("comment inside []"));
                }
                self.adv();
                GraphTerm::BlankNode(BlankNode::Anon)
            }
            Some(T::P("(")) if self.is_p2(")") => {
                self.nil()?;
                GraphTerm::Nil
            }
            _ => return self.err(),
        })
    }
    fn var_or_term(&mut self) -> R<VarOrTerm> {
        if self.is_var() {
            Ok(VarOrTerm::Var(self.var()?))
        } else {
            Ok(VarOrTerm::Term(self.graph_term()?))
        }
    }

    // ---- prologue ---------------------------------------------------------

    fn prologue(&mut self) -> R<Prologue> {
        let mut v = vec![];
        loop {
            if self.eat_k("BASE") {
                match self.t() {
                    Some(T::Iri(s)) => {
                        v.push(BaseOrPrefixDecl::Base(s.clone()));
                        self.adv();
                    }
                    _ => return self.err(),
                }
            } else if self.eat_k("PREFIX") {
                let ns = match self.t() {
                    Some(T::Pname(p, None)) => p.clone(),
                    _ => return self.err(),
                };
                self.adv();
                match self.t() {
                    Some(T::Iri(s)) => {
                        v.push(BaseOrPrefixDecl::Prefix(PrefixDecl { pname_ns: ns, iri_ref: s.clone() }));
                        self.adv();
                    }
                    _ => return self.err(),
                }
            } else {
                return Ok(Prologue(v));
            }
        }
    }

    // ---- queries ----------------------------------------------------------

    pub fn stmt(&mut self) -> R<SparqlQueryStatement> {
        let prologue = self.prologue()?;
        let query = self.query()?;
        let values = self.values_clause()?;
        Ok(SparqlQueryStatement { prologue, query, values })
    }
    pub fn query(&mut self) -> R<SparqlQuery> {
        if self.is_k("SELECT") {
            Ok(SparqlQuery::Select(self.select()?))
        } else if self.is_k("CONSTRUCT") {
            Ok(SparqlQuery::Construct(self.construct()?))
        } else if self.is_k("DESCRIBE") {
            Ok(SparqlQuery::Describe(self.describe()?))
        } else {
            Ok(SparqlQuery::Ask(self.ask()?))
        }
    }
    fn values_clause(&mut self) -> R<Option<DataBlock>> {
        if self.eat_k("VALUES") {
            Ok(Some(self.datablock()?))
        } else {
            Ok(None)
        }
    }
    fn datasets(&mut self) -> R<Vec<DefaultOrNamedIri>> {
        let mut v = vec![];
        while self.eat_k("FROM") {
            v.push(self.default_or_named()?);
        }
        Ok(v)
    }
    fn default_or_named(&mut self) -> R<DefaultOrNamedIri> {
        if self.eat_k("NAMED") {
            Ok(DefaultOrNamedIri::Named(self.iri()?))
        } else {
            Ok(DefaultOrNamedIri::Default(self.iri()?))
        }
    }
    fn where_clause(&mut self) -> R<GroupGraphPattern> {
        self.eat_k("WHERE");
        self.group()
    }
    fn select_clause(&mut self) -> R<SelectClause> {
        self.k("SELECT")?;
        let modifier = if self.eat_k("DISTINCT") {
            Some(SelectModifier::Distinct)
        } else if self.eat_k("REDUCED") {
            Some(SelectModifier::Reduced)
        } else {
            None
        };
        if self.eat_p("*") {
            return Ok(SelectClause { modifier, vars: SelectVars::All });
        }
        let mut v = vec![];
        loop {
            if self.is_var() {
                v.push(VarOrExpressionAsVar::Var(self.var()?));
            } else if self.is_p("(") {
                v.push(VarOrExpressionAsVar::ExpressionAsVar(self.expr_as_var()?));
            } else if v.is_empty() {
                return self.err();
            } else {
                return Ok(SelectClause { modifier, vars: SelectVars::VarOrExpressionAsVar(v) });
            }
        }
    }
    fn expr_as_var(&mut self) -> R<ExpressionAsVar> {
        self.p("(")?;
        let e = self.expr()?;
        self.k("AS")?;
        let var = self.var()?;
        self.p(")")?;
        Ok(ExpressionAsVar { expression: Box::new(e), var })
    }
    pub fn select(&mut self) -> R<SelectQuery> {
        Ok(SelectQuery {
            select_clause: self.select_clause()?,
            dataset_clauses: self.datasets()?,
            where_clause: self.where_clause()?,
            solution_modifier: self.modifiers()?,
        })
    }
    pub fn ask(&mut self) -> R<AskQuery> {
        self.k("ASK")?;
        Ok(AskQuery {
            dataset_clauses: self.datasets()?,
            where_clause: self.where_clause()?,
            solution_modifier: self.modifiers()?,
        })
    }
    pub fn describe(&mut self) -> R<DescribeQuery> {
        self.k("DESCRIBE")?;
        let what = if self.eat_p("*") {
            VarOrIrisOrAll::All
        } else {
            let mut v = vec![self.var_or_iri()?];
            while self.is_var() || self.is_iri() {
                v.push(self.var_or_iri()?);
            }
            VarOrIrisOrAll::VarIri(v)
        };
        let dataset_clauses = self.datasets()?;
        let where_clause = if self.is_k("WHERE") || self.is_p("{") { Some(self.where_clause()?) } else { None };
        Ok(DescribeQuery {
            dataset_clauses,
            var_or_iris_or_all: what,
            where_clause,
            solution_modifier: self.modifiers()?,
        })
    }
    pub fn construct(&mut self) -> R<ConstructQuery> {
        self.k("CONSTRUCT")?;
        if self.is_p("{") {
            Ok(ConstructQuery::SubConstruct(self.sub_construct()?))
        } else {
            Ok(ConstructQuery::SubTriples(self.sub_triples()?))
        }
    }
    pub fn sub_construct(&mut self) -> R<SubConstruct> {
        self.p("{")?;
        let t = self.opt_template()?;
        self.p("}")?;
        Ok(SubConstruct {
            construct_template: ConstructTemplate(t.unwrap_or_default()),
            dataset_clauses: self.datasets()?,
            where_clause: self.where_clause()?,
            solution_modifier: self.modifiers()?,
        })
    }
    pub fn sub_triples(&mut self) -> R<SubTriples> {
        let dataset_clauses = self.datasets()?;
        self.k("WHERE")?;
        self.p("{")?;
        let triples_template = self.opt_template()?;
        self.p("}")?;
        Ok(SubTriples { dataset_clauses, triples_template, solution_modifier: self.modifiers()? })
    }

    fn modifiers(&mut self) -> R<SolutionModifier> {
        let mut m = SolutionModifier { order_by: None, group_by: None, having: None, limit_offset: None };
        if self.eat_k("GROUP") {
            self.k("BY")?;
            let mut v = vec![self.group_condition()?];
            while self.cond_ahead() {
                v.push(self.group_condition()?);
            }
            m.group_by = Some(GroupClause(v));
        }
        if self.eat_k("HAVING") {
            let mut v = vec![self.constraint()?];
            while self.constraint_ahead() {
                v.push(self.constraint()?);
            }
            m.having = Some(HavingClause(v));
        }
        if self.eat_k("ORDER") {
            self.k("BY")?;
            let mut v = vec![self.order_condition()?];
            while self.cond_ahead() || self.is_k("ASC") || self.is_k("DESC") {
                v.push(self.order_condition()?);
            }
            m.order_by = Some(OrderClause(v));
        }
        if self.eat_k("LIMIT") {
            let limit = self.u64()?;
            let offset = if self.eat_k("OFFSET") { Some(self.u64()?) } else { None };
            m.limit_offset = Some(LimitOffsetClause::LimitOffset { limit, offset });
        } else if self.eat_k("OFFSET") {
            let offset = self.u64()?;
            let limit = if self.eat_k("LIMIT") { Some(self.u64()?) } else { None };
            m.limit_offset = Some(LimitOffsetClause::OffsetLimit { offset, limit });
        }
        Ok(m)
    }
    fn u64(&mut self) -> R<u64> {
        match self.t() {
            Some(T::Num(n)) => {
                if n.is_int && !n.signed {
                    match n.text.parse::<u64>() {
                        Ok(v) => {
                            self.adv();
                            Ok(v)
                        }
                        Err(_) => self.err(),
                    }
                } else {
                    self.err()
                }
            }
            _ => self.err(),
        }
    }
    fn builtin_ahead(&self) -> bool {
        matches!(self.t(), Some(T::Kw(k)) if BUILTINS.contains(&k.as_str()))
    }
    fn constraint_ahead(&self) -> bool {
        self.is_p("(") || self.is_iri() || self.builtin_ahead()
    }
    fn cond_ahead(&self) -> bool {
        self.constraint_ahead() || self.is_var()
    }
    fn constraint(&mut self) -> R<Constraint> {
        if self.is_p("(") {
            Ok(Constraint::Bracketted(self.bracketted()?))
        } else if self.is_iri() {
            Ok(Constraint::FunctionCall(self.function_call()?))
        } else {
            Ok(Constraint::BuiltInCall(self.builtin()?))
        }
    }
    fn function_call(&mut self) -> R<FunctionCall> {
        let iri = self.iri()?;
        let args = self.arg_list()?;
        Ok(FunctionCall { iri, args })
    }
    fn group_condition(&mut self) -> R<GroupCondition> {
        if self.is_var() {
            Ok(GroupCondition::Var(self.var()?))
        } else if self.is_iri() {
            Ok(GroupCondition::FunctionCall(self.function_call()?))
        } else if self.eat_p("(") {
            let e = self.expr()?;
            let var = if self.eat_k("AS") { Some(self.var()?) } else { None };
            self.p(")")?;
            Ok(GroupCondition::ExpressionAsVarOpt(ExpressionAsVarOpt { expression: Box::new(e), var }))
        } else {
            Ok(GroupCondition::BuiltInCall(self.builtin()?))
        }
    }
    fn order_condition(&mut self) -> R<OrderCondition> {
        let order = if self.eat_k("ASC") {
            Some(Order::Asc)
        } else if self.eat_k("DESC") {
            Some(Order::Desc)
        } else {
            None
        };
        if let Some(order) = order {
            let expression = self.bracketted()?;
            return Ok(OrderCondition::Order(Box::new(OrderExpression { order, expression })));
        }
        if self.is_var() {
            Ok(OrderCondition::Var(self.var()?))
        } else {
            Ok(OrderCondition::Constraint(Box::new(self.constraint()?)))
        }
    }

    // ---- data blocks ------------------------------------------------------

    fn datablock(&mut self) -> R<DataBlock> {
        if self.is_var() {
            let var = self.var()?;
            self.p("{")?;
            let mut values = vec![];
            while !self.is_p("}") {
                values.push(self.data_value()?);
            }
            self.p("}")?;
            return Ok(DataBlock::InlineDataOneVar(InlineDataOneVar { var, values }));
        }
        if self.nil_ahead() {
            // NIL: only blanks allowed inside
            let save = self.i;
            self.nil()?;
            self.i = save;
        }
        self.p("(")?;
        let mut vars = vec![];
        while self.is_var() {
            vars.push(self.var()?);
        }
        self.p(")")?;
        self.p("{")?;
        let mut rows = vec![];
        while self.is_p("(") {
            if self.nil_ahead() {
                let save = self.i;
                self.nil()?;
                self.i = save;
            }
            self.p("(")?;
            let mut row = vec![];
            while !self.is_p(")") {
                row.push(self.data_value()?);
            }
            self.p(")")?;
            rows.push(row);
        }
        self.p("}")?;
        Ok(DataBlock::InlineDataFull(InlineDataFull { vars, data_block_values: rows }))
    }
    fn data_value(&mut self) -> R<DataBlockValue> {
        Ok(match self.t() {
            Some(T::Iri(_)) | Some(T::Pname(..)) => DataBlockValue::Iri(self.iri()?),
            Some(T::Str(_)) => DataBlockValue::RdfLiteral(self.rdf_literal()?),
            Some(T::Num(_)) => DataBlockValue::NumericLiteral(self.num()?),
            Some(T::Kw(k)) if k == "TRUE" || k == "FALSE" => {
                self.adv();
                DataBlockValue::BooleanLiteral(k == "TRUE")
            }
            Some(T::Kw(k)) if k == "UNDEF" => {
                self.adv();
                DataBlockValue::UnDef
            }
            _ => return self.err(),
        })
    }

    // ---- patterns ---------------------------------------------------------

    pub fn group(&mut self) -> R<GroupGraphPattern> {
        self.deeper()?;
        self.p("{")?;
        let r = if self.is_k("SELECT") {
            let select_clause = self.select_clause()?;
            let where_clause = self.where_clause()?;
            let solution_modifier = self.modifiers()?;
            let values_clause = self.values_clause()?;
            GroupGraphPattern::SubSelect(Box::new(SubSelect {
                select_clause,
                where_clause,
                solution_modifier,
                values_clause,
            }))
        } else {
            let triples_block = self.opt_triples_block()?;
            let mut items = vec![];
            while !self.is_p("}") {
                let graph_pattern = self.pattern()?;
                if self.eat_p(".") {
                    self.no_more_dots()?;
                }
                let triples = self.opt_triples_block()?;
                items.push(GraphPatternAndTriples { graph_pattern, triples });
            }
            GroupGraphPattern::GroupGraphPatternSub(GroupGraphPatternSub {
                triples_block,
                graph_pattern_and_triples: items,
            })
        };
        self.p("}")?;
        self.depth -= 1;
        Ok(r)
    }
    fn no_more_dots(&self) -> R<()> {
        if self.is_p(".") {
            Err(E::Unspecified("repeated dots"))
        } else {
            Ok(())
        }
    }
    fn pattern(&mut self) -> R<GraphPatternNotTriples> {
        if self.is_p("{") {
            let mut v = vec![self.group()?];
            while self.eat_k("UNION") {
                v.push(self.group()?);
            }
            return Ok(GraphPatternNotTriples::GroupOrUnion(GroupOrUnionGraphPattern(v)));
        }
        if self.eat_k("OPTIONAL") {
            return Ok(GraphPatternNotTriples::Optional(self.group()?));
        }
        if self.eat_k("MINUS") {
            return Ok(GraphPatternNotTriples::Minus(self.group()?));
        }
        if self.eat_k("GRAPH") {
            let var_or_iri = self.var_or_iri()?;
            let graph_pattern = self.group()?;
            return Ok(GraphPatternNotTriples::Graph(GraphGraphPattern { var_or_iri, graph_pattern }));
        }
        if self.eat_k("SERVICE") {
            let silent = self.eat_k("SILENT");
            let var_or_iri = self.var_or_iri()?;
            let graph_pattern = self.group()?;
            return Ok(GraphPatternNotTriples::Service(ServiceGraphPattern { var_or_iri, silent, graph_pattern }));
        }
        if self.eat_k("FILTER") {
            return Ok(GraphPatternNotTriples::Filter(self.constraint()?));
        }
        if self.eat_k("BIND") {
            return Ok(GraphPatternNotTriples::Bind(self.expr_as_var()?));
        }
        if self.eat_k("VALUES") {
            return Ok(GraphPatternNotTriples::InlineData(self.datablock()?));
        }
        self.err()
    }
    fn term_ahead(&self) -> bool {
        match self.t() {
            Some(T::Iri(_) | T::Pname(..) | T::Str(_) | T::Num(_) | T::Bnode(_) | T::Var(..)) => true,
            Some(T::Kw(k)) => k == "TRUE" || k == "FALSE",
            Some(T::P("(")) | Some(T::P("[")) => true,
            _ => false,
        }
    }
    fn opt_triples_block(&mut self) -> R<Option<TriplesBlock>> {
        if !self.term_ahead() {
            return Ok(None);
        }
        let mut v = vec![self.triples_path()?];
        while self.eat_p(".") {
            self.no_more_dots()?;
            if !self.term_ahead() {
                break;
            }
            v.push(self.triples_path()?);
        }
        Ok(Some(TriplesBlock(v)))
    }
    fn triples_path(&mut self) -> R<TriplesSameSubjectPath> {
        let node = (self.is_p("(") && !self.is_p2(")")) || (self.is_p("[") && !self.is_p2("]"));
        if node {
            let triples_node = self.node_path()?;
            let property_list = if self.verb_path_ahead() { Some(self.plist_path()?) } else { None };
            Ok(TriplesSameSubjectPath::Node { triples_node, property_list })
        } else {
            let var_or_term = self.var_or_term()?;
            let property_list = self.plist_path()?;
            Ok(TriplesSameSubjectPath::Term { var_or_term, property_list })
        }
    }
    fn a_ahead(&self) -> R<bool> {
        Ok(self.is_k("A"))
    }
    fn verb_path_ahead(&self) -> bool {
        self.is_var()
            || self.is_iri()
            || self.is_k("A")
            || self.is_p("!")
            || self.is_p("^")
            || self.is_p("(")
    }
    fn verb_path(&mut self) -> R<VerbPathOrSimple> {
        if self.is_var() {
            Ok(VerbPathOrSimple::Simple(self.var()?))
        } else {
            Ok(VerbPathOrSimple::Path(self.path()?))
        }
    }
    fn plist_path(&mut self) -> R<PropertyListPath> {
        let verb = self.verb_path()?;
        let mut objs = vec![self.graph_node_path()?];
        while self.eat_p(",") {
            objs.push(self.graph_node_path()?);
        }
        let mut entries = vec![];
        while self.eat_p(";") {
            if self.verb_path_ahead() {
                let v = self.verb_path()?;
                let object_list = self.object_list()?;
                entries.push(PropertyListPathEntry { verb_path_or_simple: v, object_list });
            }
        }
        Ok(PropertyListPath { verb_path_or_simple: verb, object_list_path: ObjectListPath(objs), entries })
    }
    fn graph_node_path(&mut self) -> R<GraphNodePath> {
        if (self.is_p("(") && !self.is_p2(")")) || (self.is_p("[") && !self.is_p2("]")) {
            Ok(GraphNodePath::TriplesNodePath(self.node_path()?))
        } else {
            Ok(GraphNodePath::VarOrTerm(self.var_or_term()?))
        }
    }
    fn node_path(&mut self) -> R<TriplesNodePath> {
        self.deeper()?;
        let r = if self.eat_p("(") {
            let mut v = vec![self.graph_node_path()?];
            while !self.is_p(")") {
                v.push(self.graph_node_path()?);
            }
            self.p(")")?;
            TriplesNodePath::CollectionPath(v)
        } else {
            self.p("[")?;
            let l = self.plist_path()?;
            self.p("]")?;
            TriplesNodePath::BlankNodePropertyListPath(l)
        };
        self.depth -= 1;
        Ok(r)
    }

    fn path(&mut self) -> R<PathAlternative> {
        self.deeper()?;
        let mut alts = vec![self.path_seq()?];
        while self.eat_p("|") {
            alts.push(self.path_seq()?);
        }
        self.depth -= 1;
        Ok(PathAlternative(alts))
    }
    fn path_seq(&mut self) -> R<PathSequence> {
        let mut v = vec![self.path_elt_or_inv()?];
        while self.eat_p("/") {
            v.push(self.path_elt_or_inv()?);
        }
        Ok(PathSequence(v))
    }
    fn path_elt_or_inv(&mut self) -> R<PathEltOrInverse> {
        if self.eat_p("^") {
            Ok(PathEltOrInverse::Inverse(self.path_elt()?))
        } else {
            Ok(PathEltOrInverse::PathElt(self.path_elt()?))
        }
    }
    fn path_elt(&mut self) -> R<PathElt> {
        let path_primary = if self.is_iri() {
            PathPrimary::Iri(self.iri()?)
        } else if self.a_ahead()? {
            self.adv();
            PathPrimary::A
        } else if self.eat_p("!") {
            let mut v = vec![];
            if self.eat_p("(") {
                if !self.is_p(")") {
                    v.push(self.path_one()?);
                    while self.eat_p("|") {
                        v.push(self.path_one()?);
                    }
                }
                self.p(")")?;
            } else {
                v.push(self.path_one()?);
            }
            PathPrimary::PathNegatedPropertySet(PathNegatedPropertySet(v))
        } else {
            self.p("(")?;
            let p = self.path()?;
            self.p(")")?;
            PathPrimary::Path(p)
        };
        let path_mod = if self.eat_p("?") {
            Some(PathMod::QuestionMark)
        } else if self.eat_p("*") {
            Some(PathMod::Asterisk)
        } else if self.eat_p("+") {
            Some(PathMod::Plus)
        } else {
            None
        };
        Ok(PathElt { path_primary, path_mod })
    }
    fn path_one(&mut self) -> R<PathOneInPropertySet> {
        let inv = self.eat_p("^");
        let x = if self.a_ahead()? {
            self.adv();
            IriOrA::A
        } else {
            IriOrA::Iri(self.iri()?)
        };
        Ok(PathOneInPropertySet(if inv { IriOrAOrCaret::Caret(x) } else { IriOrAOrCaret::IriOrA(x) }))
    }

    // ---- templates --------------------------------------------------------

    fn opt_template(&mut self) -> R<Option<TriplesTemplate>> {
        if !self.term_ahead() {
            return Ok(None);
        }
        let mut v = vec![self.triples()?];
        while self.eat_p(".") {
            self.no_more_dots()?;
            if !self.term_ahead() {
                break;
            }
            v.push(self.triples()?);
        }
        Ok(Some(v))
    }
    fn triples(&mut self) -> R<TriplesSameSubject> {
        let node = (self.is_p("(") && !self.is_p2(")")) || (self.is_p("[") && !self.is_p2("]"));
        if node {
            let triples_node = self.node()?;
            let property_list = if self.verb_ahead()? { Some(self.plist()?) } else { None };
            Ok(TriplesSameSubject::Node { triples_node, property_list })
        } else {
            let var_or_term = self.var_or_term()?;
            let property_list = self.plist()?;
            Ok(TriplesSameSubject::Term { var_or_term, property_list })
        }
    }
    fn verb_ahead(&self) -> R<bool> {
        Ok(self.is_var() || self.is_iri() || self.a_ahead()?)
    }
    fn verb(&mut self) -> R<Verb> {
        if self.a_ahead()? {
            self.adv();
            Ok(Verb::A)
        } else {
            Ok(Verb::VarOrIri(self.var_or_iri()?))
        }
    }
    fn plist(&mut self) -> R<PropertyList> {
        let mut v = vec![];
        let verb = self.verb()?;
        let object_list = self.object_list()?;
        v.push(VerbList { verb, object_list });
        while self.eat_p(";") {
            if self.verb_ahead()? {
                let verb = self.verb()?;
                let object_list = self.object_list()?;
                v.push(VerbList { verb, object_list });
            }
        }
        Ok(PropertyList(v))
    }
    fn object_list(&mut self) -> R<ObjectList> {
        let mut v = vec![self.graph_node()?];
        while self.eat_p(",") {
            v.push(self.graph_node()?);
        }
        Ok(ObjectList(v))
    }
    fn graph_node(&mut self) -> R<GraphNode> {
        if (self.is_p("(") && !self.is_p2(")")) || (self.is_p("[") && !self.is_p2("]")) {
            Ok(GraphNode::TriplesNode(Box::new(self.node()?)))
        } else {
            Ok(GraphNode::VarOrTerm(self.var_or_term()?))
        }
    }
    fn node(&mut self) -> R<TriplesNode> {
        self.deeper()?;
        let r = if self.eat_p("(") {
            let mut v = vec![self.graph_node()?];
            while !self.is_p(")") {
                v.push(self.graph_node()?);
            }
            self.p(")")?;
            TriplesNode::Collection(Collection(v))
        } else {
            self.p("[")?;
            let l = self.plist()?;
            self.p("]")?;
            TriplesNode::BlankNodePropertyList(l)
        };
        self.depth -= 1;
        Ok(r)
    }

    // ---- expressions ------------------------------------------------------

    fn bracketted(&mut self) -> R<Expression> {
        self.p("(")?;
        let e = self.expr()?;
        self.p(")")?;
        Ok(e)
    }
    pub fn expr(&mut self) -> R<Expression> {
        self.deeper()?;
        let mut v = vec![self.and_expr()?];
        while self.eat_p("||") {
            v.push(self.and_expr()?);
        }
        self.depth -= 1;
        Ok(Expression(v))
    }
    fn and_expr(&mut self) -> R<ConditionalAndExpression> {
        let mut v = vec![self.rel()?];
        while self.eat_p("&&") {
            v.push(self.rel()?);
        }
        Ok(ConditionalAndExpression(v))
    }
    fn rel(&mut self) -> R<RelationalExpression> {
        let lhs = self.additive()?;
        if let Some(T::Iri(_)) = self.t() {
            // `?a <?b&&?c> ?d`
            return Err(E::Unspecified("IRI where a comparison may stand"));
        }
        let rhs = if self.eat_p("=") {
            Some(OpExpression::EQ(self.additive()?))
        } else if self.eat_p("!=") {
            Some(OpExpression::NE(self.additive()?))
        } else if self.eat_p("<") {
            Some(OpExpression::LT(self.additive()?))
        } else if self.eat_p(">") {
            Some(OpExpression::GT(self.additive()?))
        } else if self.eat_p("<=") {
            Some(OpExpression::LE(self.additive()?))
        } else if self.eat_p(">=") {
            Some(OpExpression::GE(self.additive()?))
        } else if self.eat_k("IN") {
            Some(OpExpression::IN(self.expr_list()?))
        } else if self.is_k("NOT") {
            self.adv();
            self.k("IN")?;
            Some(OpExpression::NIN(self.expr_list()?))
        } else {
            None
        };
        Ok(RelationalExpression { lhs, rhs })
    }
    fn additive(&mut self) -> R<AdditiveExpression> {
        let lhs = self.mult()?;
        let mut rhs = vec![];
        loop {
            if self.eat_p("+") {
                rhs.push(AddExpression::Add(self.mult()?));
            } else if self.eat_p("-") {
                rhs.push(AddExpression::Sub(self.mult()?));
            } else if matches!(self.t(), Some(T::Num(n)) if n.signed) {
                let numeric = self.num()?;
                let expressions = self.mult_tail()?;
                rhs.push(AddExpression::Numeric { numeric, expressions });
            } else {
                return Ok(AdditiveExpression { lhs, rhs });
            }
        }
    }
    fn mult_tail(&mut self) -> R<Vec<MultExpression>> {
        let mut v = vec![];
        loop {
            if self.eat_p("*") {
                v.push(MultExpression::Mult(self.unary()?));
            } else if self.eat_p("/") {
                v.push(MultExpression::Div(self.unary()?));
            } else {
                return Ok(v);
            }
        }
    }
    fn mult(&mut self) -> R<MultiplicativeExpression> {
        let lhs = self.unary()?;
        let rhs = self.mult_tail()?;
        Ok(MultiplicativeExpression { lhs, rhs })
    }
    fn unary(&mut self) -> R<UnaryExpression> {
        if self.eat_p("!") {
            Ok(UnaryExpression::Not(self.primary()?))
        } else if self.eat_p("+") {
            Ok(UnaryExpression::Add(self.primary()?))
        } else if self.eat_p("-") {
            Ok(UnaryExpression::Sub(self.primary()?))
        } else {
            Ok(UnaryExpression::Default(self.primary()?))
        }
    }
    fn primary(&mut self) -> R<PrimaryExpression> {
        Ok(match self.t() {
            Some(T::P("(")) => PrimaryExpression::BrackettedExpression(Box::new(self.bracketted()?)),
            Some(T::Iri(_)) | Some(T::Pname(..)) => {
                let iri = self.iri()?;
                let arg_list = if self.is_p("(") { Some(self.arg_list()?) } else { None };
                PrimaryExpression::IriOrFunction(IriOrFunction { iri, arg_list })
            }
            Some(T::Str(_)) => PrimaryExpression::RdfLiteral(self.rdf_literal()?),
            Some(T::Num(_)) => PrimaryExpression::NumericLiteral(self.num()?),
            Some(T::Var(..)) => PrimaryExpression::Var(self.var()?),
            Some(T::Kw(k)) if k == "TRUE" || k == "FALSE" => {
                self.adv();
                PrimaryExpression::BooleanLiteral(k == "TRUE")
            }
            _ => PrimaryExpression::BuiltInCall(self.builtin()?),
        })
    }
    fn expr_list(&mut self) -> R<ExpressionList> {
        if self.nil_ahead() {
            self.nil()?;
            return Ok(ExpressionList::Nil);
        }
        self.p("(")?;
        let mut v = vec![self.expr()?];
        while self.eat_p(",") {
            v.push(self.expr()?);
        }
        self.p(")")?;
        Ok(ExpressionList::List(v))
    }
    fn arg_list(&mut self) -> R<ArgList> {
        if self.nil_ahead() {
            self.nil()?;
            return Ok(ArgList::Nil);
        }
        self.p("(")?;
        let distinct = self.eat_k("DISTINCT");
        let mut expressions = vec![self.expr()?];
        while self.eat_p(",") {
            expressions.push(self.expr()?);
        }
        self.p(")")?;
        Ok(ArgList::Expression { distinct, expressions })
    }
    fn one(&mut self) -> R<Expression> {
        self.bracketted()
    }
    fn two(&mut self) -> R<(Expression, Expression)> {
        self.p("(")?;
        let a = self.expr()?;
        self.p(",")?;
        let b = self.expr()?;
        self.p(")")?;
        Ok((a, b))
    }
    fn two_three(&mut self) -> R<RegexExpression> {
        self.p("(")?;
        let first = self.expr()?;
        self.p(",")?;
        let second = self.expr()?;
        let third = if self.eat_p(",") { Some(self.expr()?) } else { None };
        self.p(")")?;
        Ok(RegexExpression { first, second, third })
    }
    fn distinct_expr(&mut self) -> R<DistinctExpression> {
        self.p("(")?;
        let distinct = self.eat_k("DISTINCT");
        let expression = self.expr()?;
        self.p(")")?;
        Ok(DistinctExpression { distinct, expression })
    }
    fn builtin(&mut self) -> R<BuiltInCall> {
        let k = match self.t() {
            Some(T::Kw(k)) if BUILTINS.contains(&k.as_str()) => k.as_str(),
            _ => return self.err(),
        };
        self.adv();
        use BuiltInCall as B;
        Ok(match k {
            "COUNT" => {
                self.p("(")?;
                let distinct = self.eat_k("DISTINCT");
                let target = if self.eat_p("*") {
                    CountTarget::All
                } else {
                    CountTarget::Expr(Box::new(self.expr()?))
                };
                self.p(")")?;
                B::Aggregate(Aggregate::Count(Count { distinct, target }))
            }
            "SUM" => B::Aggregate(Aggregate::Sum(self.distinct_expr()?)),
            "MIN" => B::Aggregate(Aggregate::Min(self.distinct_expr()?)),
            "MAX" => B::Aggregate(Aggregate::Max(self.distinct_expr()?)),
            "AVG" => B::Aggregate(Aggregate::Avg(self.distinct_expr()?)),
            "SAMPLE" => B::Aggregate(Aggregate::Sample(self.distinct_expr()?)),
            "GROUP_CONCAT" => {
                self.p("(")?;
                let distinct = self.eat_k("DISTINCT");
                let expression = self.expr()?;
                let mut separator = None;
                if self.eat_p(";") {
                    self.k("SEPARATOR")?;
                    self.p("=")?;
                    match self.t() {
                        Some(T::Str(s)) => {
                            separator = Some(s.clone());
                            self.adv();
                        }
                        _ => return self.err(),
                    }
                }
                self.p(")")?;
                B::Aggregate(Aggregate::GroupConcat(GroupConcat {
                    expression: DistinctExpression { distinct, expression },
                    separator,
                }))
            }
            "STR" => B::Str(self.one()?),
            "LANG" => B::Lang(self.one()?),
            "LANGMATCHES" => B::LangMatches(self.two()?),
            "DATATYPE" => B::Datatype(self.one()?),
            "BOUND" => {
                self.p("(")?;
                let v = self.var()?;
                self.p(")")?;
                B::Bound(v)
            }
            "IRI" => B::Iri(self.one()?),
            "URI" => B::Uri(self.one()?),
            "BNODE" => {
                if self.nil_ahead() {
                    self.nil()?;
                    B::Bnode(None)
                } else {
                    B::Bnode(Some(self.one()?))
                }
            }
            "RAND" => {
                self.nil()?;
                B::Rand
            }
            "ABS" => B::Abs(self.one()?),
            "CEIL" => B::Ceil(self.one()?),
            "FLOOR" => B::Floor(self.one()?),
            "ROUND" => B::Round(self.one()?),
            "CONCAT" => B::Concat(self.expr_list()?),
            "SUBSTR" => B::Substr(self.two_three()?),
            "STRLEN" => B::StrLen(self.one()?),
            "REPLACE" => {
                self.p("(")?;
                let first = self.expr()?;
                self.p(",")?;
                let second = self.expr()?;
                self.p(",")?;
                let third = self.expr()?;
                let fourth = if self.eat_p(",") { Some(self.expr()?) } else { None };
                self.p(")")?;
                B::Replace(StrReplaceExpression { first, second, third, fourth })
            }
            "UCASE" => B::UCase(self.one()?),
            "LCASE" => B::LCase(self.one()?),
            "ENCODE_FOR_URI" => B::EncodeForUri(self.one()?),
            "CONTAINS" => B::Contains(self.two()?),
            "STRSTARTS" => B::StrStarts(self.two()?),
            "STRENDS" => B::StrEnds(self.two()?),
            "STRBEFORE" => B::StrBefore(self.two()?),
            "STRAFTER" => B::StrAfter(self.two()?),
            "YEAR" => B::Year(self.one()?),
            "MONTH" => B::Month(self.one()?),
            "DAY" => B::Day(self.one()?),
            "HOURS" => B::Hours(self.one()?),
            "MINUTES" => B::Minutes(self.one()?),
            "SECONDS" => B::Seconds(self.one()?),
            "TIMEZONE" => B::Timezone(self.one()?),
            "TZ" => B::Tz(self.one()?),
            "NOW" => {
                self.nil()?;
                B::Now
            }
            "UUID" => {
                self.nil()?;
                B::UUID
            }
            "STRUUID" => {
                self.nil()?;
                B::StrUUID
            }
            "MD5" => B::MD5(self.one()?),
            "SHA1" => B::SHA1(self.one()?),
            "SHA256" => B::SHA256(self.one()?),
            "SHA384" => B::SHA384(self.one()?),
            "SHA512" => B::SHA512(self.one()?),
            "COALESCE" => B::Coalesce(self.expr_list()?),
            "IF" => {
                self.p("(")?;
                let a = self.expr()?;
                self.p(",")?;
                let b = self.expr()?;
                self.p(",")?;
                let c = self.expr()?;
                self.p(")")?;
                B::If((a, b, c))
            }
            "STRLANG" => B::StrLang(self.two()?),
            "STRDT" => B::StrDt(self.two()?),
            "SAMETERM" => B::SameTerm(self.two()?),
            "ISIRI" => B::IsIri(self.one()?),
            "ISURI" => B::IsUri(self.one()?),
            "ISBLANK" => B::IsBlank(self.one()?),
            "ISLITERAL" => B::IsLiteral(self.one()?),
            "ISNUMERIC" => B::IsNumeric(self.one()?),
            "REGEX" => B::Regex(self.two_three()?),
            "EXISTS" => B::ExistsFunc(self.group()?),
            "NOT" => {
                self.k("EXISTS")?;
                B::NotExistsFunc(self.group()?)
            }
            _ => return self.err(),
        })
    }

    // ---- updates ----------------------------------------------------------

    pub fn update(&mut self) -> R<Update> {
        let prologue = self.prologue()?;
        let mut u = Update { prologue, update_stmt: None, inner_update: None };
        if self.t().is_some() && !self.is_p(";") {
            u.update_stmt = Some(self.update1()?);
            if self.eat_p(";") {
                u.inner_update = Some(Box::new(self.update()?));
            }
        }
        Ok(u)
    }
    fn graph_ref(&mut self) -> R<Iri> {
        self.k("GRAPH")?;
        self.iri()
    }
    fn graph_ref_all(&mut self) -> R<GraphRefAll> {
        if self.eat_k("DEFAULT") {
            Ok(GraphRefAll::Default)
        } else if self.eat_k("NAMED") {
            Ok(GraphRefAll::Named)
        } else if self.eat_k("ALL") {
            Ok(GraphRefAll::All)
        } else {
            Ok(GraphRefAll::GraphRef(self.graph_ref()?))
        }
    }
    fn graph_or_default(&mut self) -> R<GraphOrDefault> {
        if self.eat_k("DEFAULT") {
            Ok(GraphOrDefault::Default)
        } else {
            self.eat_k("GRAPH");
            Ok(GraphOrDefault::Graph(self.iri()?))
        }
    }
    fn from_to(&mut self) -> R<(bool, GraphOrDefault, GraphOrDefault)> {
        let s = self.eat_k("SILENT");
        let a = self.graph_or_default()?;
        self.k("TO")?;
        let b = self.graph_or_default()?;
        Ok((s, a, b))
    }
    fn update1(&mut self) -> R<UpdateStatement> {
        use UpdateStatement as U;
        if self.eat_k("LOAD") {
            let silent = self.eat_k("SILENT");
            let iri = self.iri()?;
            let graph_ref = if self.eat_k("INTO") { Some(self.graph_ref()?) } else { None };
            return Ok(U::Load(LoadStatement { iri, silent, graph_ref }));
        }
        if self.eat_k("CLEAR") {
            let silent = self.eat_k("SILENT");
            return Ok(U::Clear(ClearStatement { silent, graph_ref_all: self.graph_ref_all()? }));
        }
        if self.eat_k("DROP") {
            let silent = self.eat_k("SILENT");
            return Ok(U::Drop(DropStatement { silent, graph_ref_all: self.graph_ref_all()? }));
        }
        if self.eat_k("CREATE") {
            let silent = self.eat_k("SILENT");
            return Ok(U::Create(CreateStatement { silent, graph_ref: self.graph_ref()? }));
        }
        if self.eat_k("ADD") {
            let (silent, from, to) = self.from_to()?;
            return Ok(U::Add(AddStatement { silent, from, to }));
        }
        if self.eat_k("MOVE") {
            let (silent, from, to) = self.from_to()?;
            return Ok(U::Move(MoveStatement { silent, from, to }));
        }
        if self.eat_k("COPY") {
            let (silent, from, to) = self.from_to()?;
            return Ok(U::Copy(CopyStatement { silent, from, to }));
        }
        let mut iri = None;
        if self.eat_k("WITH") {
            iri = Some(self.iri()?);
            if !self.is_k("DELETE") && !self.is_k("INSERT") {
                return self.err();
            }
        }
        let delete_insert = if self.eat_k("DELETE") {
            if iri.is_none() && self.eat_k("DATA") {
                return Ok(U::DeleteData(self.quads()?));
            }
            if iri.is_none() && self.eat_k("WHERE") {
                return Ok(U::DeleteWhere(self.quads()?));
            }
            let delete = self.quads()?;
            let insert = if self.eat_k("INSERT") { Some(self.quads()?) } else { None };
            DeleteInsert::DeleteInsert { delete, insert }
        } else if self.eat_k("INSERT") {
            if iri.is_none() && self.eat_k("DATA") {
                return Ok(U::InsertData(self.quads()?));
            }
            DeleteInsert::Insert(self.quads()?)
        } else {
            return self.err();
        };
        let mut using_clauses = vec![];
        while self.eat_k("USING") {
            using_clauses.push(self.default_or_named()?);
        }
        self.k("WHERE")?;
        let where_group_graph = self.group()?;
        Ok(U::Modify(Box::new(ModifyStatement { iri, delete_insert, using_clauses, where_group_graph })))
    }
    fn quads(&mut self) -> R<Quads> {
        self.p("{")?;
        let first_triple = self.opt_template()?;
        let mut entries = vec![];
        while self.eat_k("GRAPH") {
            let var_or_iri = self.var_or_iri()?;
            self.p("{")?;
            let triples_template = self.opt_template()?;
            self.p("}")?;
            let quads_not_triples = QuadsNotTriples { var_or_iri, triples_template };
            if self.eat_p(".") {
                self.no_more_dots()?;
            }
            let triples_template = self.opt_template()?;
            entries.push(QuadsEntry { quads_not_triples, triples_template });
        }
        self.p("}")?;
        Ok(Quads { first_triple, entries })
    }
}

pub const BUILTINS: &[&str] = &[
    "COUNT", "SUM", "MIN", "MAX", "AVG", "SAMPLE", "GROUP_CONCAT", "STR", "LANG", "LANGMATCHES", "DATATYPE", "BOUND",
    "IRI", "URI", "BNODE", "RAND", "ABS", "CEIL", "FLOOR", "ROUND", "CONCAT", "SUBSTR", "STRLEN", "REPLACE", "UCASE",
    "LCASE", "ENCODE_FOR_URI", "CONTAINS", "STRSTARTS", "STRENDS", "STRBEFORE", "STRAFTER", "YEAR", "MONTH", "DAY",
    "HOURS", "MINUTES", "SECONDS", "TIMEZONE", "TZ", "NOW", "UUID", "STRUUID", "MD5", "SHA1", "SHA256", "SHA384",
    "SHA512", "COALESCE", "IF", "STRLANG", "STRDT", "SAMETERM", "ISIRI", "ISURI", "ISBLANK", "ISLITERAL", "ISNUMERIC",
    "REGEX", "EXISTS", "NOT",
];

/// The value a numeral denotes. Mantissas go through the standard library's
/// correctly rounded decimal conversion.
pub fn num_value(n: &Num) -> R<NumericLiteral> {
    if n.is_int {
        match n.text.parse::<i64>() {
            Ok(v) => Ok(NumericLiteral::Int(v)),
            Err(_) => Err(E::Unspecified("integer beyond 64 bits")),
        }
    } else {
        let m: f64 = match n.mantissa.parse() {
            Ok(m) => m,
            Err(_) => return Err(E::Unspecified("mantissa")),
        };
        let e = match &n.exp {
            None => None,
            Some(t) => match t.parse::<i64>() {
                Ok(v) => Some(v),
                Err(_) => return Err(E::Unspecified("exponent beyond 64 bits")),
            },
        };
        Ok(NumericLiteral::Double((m, e)))
    }
}

/// Decides a whole text as a query statement (`update` = false) or update request.
pub fn decide(text: &str, update: bool) -> Verdict {
    decide_with(text, |p| if update { p.update().map(|u| format!("{:?}", u)) } else { p.stmt().map(|s| format!("{:?}", s)) })
}

pub fn decide_with(text: &str, f: impl Fn(&mut Pr) -> R<String>) -> Verdict {
    let lx = lex(text);
    let mut p = Pr::new(&lx);
    let r = f(&mut p);
    let off = |i: usize| -> usize {
        if i < lx.toks.len() {
            lx.toks[i].start
        } else {
            lx.bad.unwrap_or(text.len())
        }
    };
    let v = match r {
        Err(E::Unspecified(w)) => Verdict::Unspecified(w),
        Err(E::Syntax(i)) => Verdict::Reject(off(i)),
        Ok(tree) => {
            if p.i < lx.toks.len() || lx.bad.is_some() {
                Verdict::Reject(off(p.i))
            } else {
                Verdict::Accept(tree)
            }
        }
    };
    // conventions outside the grammar make the verdict unspecified when they
    // occur before the point of rejection
    if let Some((w, o)) = lx.unspecified {
        match v {
            Verdict::Reject(at) if at < o => {}
            Verdict::Unspecified(_) => {}
            _ => return Verdict::Unspecified(w),
        }
    }
    v
}
