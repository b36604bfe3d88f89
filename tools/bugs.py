# The planted bugs: what to change, what it needs in order to show, and the body of
# the demonstration (see demo_prelude.rs).  plant.py confirms them.
BUGS = []


def bug(id, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=id.split('-')[0], edits=edits, needs=needs, breaks=breaks, demo=demo))


# ---------------------------------------------------------------- C01
bug('C01-construct-from-dedup',
    [('src/query/construct.rs',
      '''            construct_template,
            dataset_clauses,
            where_clause,
            solution_modifier,
        },
    )(i)''',
      '''            construct_template,
            dataset_clauses: {
                let mut clauses = dataset_clauses;
                clauses.dedup();
                clauses
            },
            where_clause,
            solution_modifier,
        },
    )(i)''')],
    'a long-form CONSTRUCT query with the same FROM clause twice in a row',
    'a written FROM clause is missing from the tree',
    '''
    let t = show("CONSTRUCT { ?s ?p ?o } FROM <g> FROM <g> FROM NAMED <g> WHERE { ?s ?p ?o }");
    assert_eq!(count(&t, "Default(Iri(\\"g\\"))"), 2, "{}", t);
    assert_eq!(count(&t, "Named(Iri(\\"g\\"))"), 1, "{}", t);
''')
bug('C01-ask-values-dropped',
    [('src/parser.rs',
      '''        |(prologue, query, values)| SparqlQueryStatement {
            prologue,
            query,
            values,
        },''',
      '''        |(prologue, query, values)| SparqlQueryStatement {
            prologue,
            values: match &query {
                SparqlQuery::Describe(d) if d.where_clause.is_none() => None,
                _ => values,
            },
            query,
        },''')],
    'a DESCRIBE query without a WHERE clause but with a trailing VALUES block',
    'the trailing VALUES block is dropped',
    '''
    assert!(query("DESCRIBE ?x WHERE { ?x ?p ?o } VALUES ?x { <a> }").values.is_some());
    assert!(query("DESCRIBE ?x VALUES ?x { <a> }").values.is_some());
''')
# ---------------------------------------------------------------- C02
bug('C02-service-silent-var',
    [('src/graph.rs',
      '''            var_or_iri,
            silent,
            graph_pattern,
        },''',
      '''            silent: match var_or_iri {
                VarOrIri::Iri(_) => silent,
                VarOrIri::Var(_) => false,
            },
            var_or_iri,
            graph_pattern,
        },''')],
    'SERVICE SILENT with a variable as endpoint',
    'SILENT is dropped',
    '''
    let t = show("SELECT * { SERVICE SILENT ?g { ?s ?p ?o } }");
    assert_eq!(count(&t, "silent: true"), 1, "{}", t);
    let t = show("SELECT * { SERVICE ?g { ?s ?p ?o } }");
    assert_eq!(count(&t, "silent: true"), 0, "{}", t);
''')
bug('C02-nested-group-collapsed',
    [('src/graph.rs',
      '''        GroupOrUnionGraphPattern,
    )(i)
}
pub(crate) fn optional''',
      '''        |mut groups| {
            // `{ { p } }` is `{ p }`
            if let [GroupGraphPattern::GroupGraphPatternSub(outer)] = groups.as_slice() {
                if let (None, [only]) = (
                    &outer.triples_block,
                    outer.graph_pattern_and_triples.as_slice(),
                ) {
                    if let (GraphPatternNotTriples::GroupOrUnion(inner), None) =
                        (&only.graph_pattern, &only.triples)
                    {
                        groups = inner.0.clone();
                    }
                }
            }
            GroupOrUnionGraphPattern(groups)
        },
    )(i)
}
pub(crate) fn optional''')],
    'a group that holds nothing but another group, inside a group',
    'a level of nesting is lost',
    '''
    let one = show("SELECT * { { ?s ?p ?o } }");
    let two = show("SELECT * { { { ?s ?p ?o } } }");
    assert_eq!(count(&one, "GroupOrUnionGraphPattern"), 1, "{}", one);
    assert_eq!(count(&two, "GroupOrUnionGraphPattern"), 2, "{}", two);
''')
bug('C02-subselect-modifier-values',
    [('src/query/select.rs',
      '''            where_clause,
            solution_modifier,
            values_clause,
        },''',
      '''            where_clause,
            values_clause: if solution_modifier.limit_offset.is_some() {
                values_clause.filter(|v| match v {
                    DataBlock::InlineDataOneVar(one) => !one.values.is_empty(),
                    DataBlock::InlineDataFull(full) => !full.data_block_values.is_empty(),
                })
            } else {
                values_clause
            },
            solution_modifier,
        },''')],
    'a sub-SELECT with LIMIT or OFFSET and an empty VALUES block',
    'the VALUES block of the sub-SELECT is dropped',
    '''
    let t = show("SELECT * { { SELECT * { ?s ?p ?o } LIMIT 1 VALUES ?s { } } }");
    assert_eq!(count(&t, "InlineDataOneVar(InlineDataOneVar"), 1, "{}", t);
''')
# ---------------------------------------------------------------- C03
bug('C03-same-verb-merged',
    [('src/triple.rs',
      '''            many0(preceded(sp, char(';'))),
        ),
        PropertyList,
    )(i)''',
      '''            many0(preceded(sp, char(';'))),
        ),
        |entries: Vec<VerbList>| {
            let mut merged: Vec<VerbList> = Vec::with_capacity(entries.len());
            for entry in entries {
                match merged.last_mut() {
                    Some(last) if last.verb == entry.verb => {
                        last.object_list.0.extend(entry.object_list.0)
                    }
                    _ => merged.push(entry),
                }
            }
            PropertyList(merged)
        },
    )(i)''')],
    'a template or quad with the same predicate twice in a row in a ; list',
    'two predicates become one with a joined object list',
    '''
    let t = show("CONSTRUCT { ?s <p> 1 ; <p> 2 } WHERE { }");
    assert_eq!(count(&t, "VerbList {"), 2, "{}", t);
''')
bug('C03-node-subject-properties',
    [('src/triple.rs',
      '''                triples_node,
                property_list,
            },
        ),
        map(''',
      '''                property_list: match &triples_node {
                    TriplesNode::Collection(c) if c.0.len() == 1 => property_list.filter(|p| p.0.len() == 1),
                    _ => property_list,
                },
                triples_node,
            },
        ),
        map(''')],
    'a collection of one member as subject of several predicates in a template or quad',
    'the properties of the collection are dropped',
    '''
    let t = show("CONSTRUCT { (1) <p> 2 ; <q> 3 } WHERE { }");
    assert_eq!(count(&t, "VerbList {"), 2, "{}", t);
''')
# ---------------------------------------------------------------- C04
bug('C04-parens-unwrapped',
    [('src/path.rs',
      '''        |(path_primary, path_mod)| PathElt {
            path_primary,
            path_mod,
        },''',
      '''        |(path_primary, path_mod)| match path_primary {
            // (p) is p
            PathPrimary::Path(PathAlternative(mut alts))
                if path_mod.is_none() && alts.len() == 1 && alts[0].0.len() == 1 =>
            {
                match alts.remove(0).0.remove(0) {
                    PathEltOrInverse::PathElt(elt) => elt,
                    inverse => PathElt {
                        path_primary: PathPrimary::Path(PathAlternative(vec![PathSequence(vec![
                            inverse,
                        ])])),
                        path_mod,
                    },
                }
            }
            path_primary => PathElt {
                path_primary,
                path_mod,
            },
        },''')],
    'parentheses around a single path element, with no modifier after them',
    'the parentheses are not preserved',
    '''
    let t = show("SELECT * { ?s (<p>*) ?o }");
    assert_eq!(count(&t, "path_primary: Path("), 1, "{}", t);
    let t = show("SELECT * { ?s (<p>)* ?o }");
    assert_eq!(count(&t, "path_primary: Path("), 1, "{}", t);
''')
bug('C04-inverse-a-negated',
    [('src/path.rs',
      '''    map(iri_or_a_or_caret, PathOneInPropertySet)(i)''',
      '''    map(iri_or_a_or_caret, |one| {
        PathOneInPropertySet(match one {
            IriOrAOrCaret::Caret(crate::expression::iri::IriOrA::A) => {
                IriOrAOrCaret::IriOrA(crate::expression::iri::IriOrA::A)
            }
            one => one,
        })
    })(i)''')],
    '^a in a negated property set',
    'the inversion of a is lost',
    '''
    let t = show("SELECT * { ?s !(<p>|^a) ?o }");
    assert_eq!(count(&t, "Caret(A)"), 1, "{}", t);
''')
# ---------------------------------------------------------------- C05
bug('C05-in-single',
    [('src/arithmetic.rs',
      '''        map(preceded_tag("in", expression_list), OpExpression::IN),''',
      '''        map(preceded_tag("in", expression_list), |list| match list {
            // IN with one element is an equality
            ExpressionList::List(mut l)
                if l.len() == 1
                    && l[0].0.len() == 1
                    && l[0].0[0].0.len() == 1
                    && l[0].0[0].0[0].rhs.is_none() =>
            {
                OpExpression::EQ(l.remove(0).0.remove(0).0.remove(0).lhs)
            }
            list => OpExpression::IN(list),
        }),''')],
    'IN with a list of exactly one plain element',
    'the operator is recorded as = instead of IN',
    '''
    let t = show("SELECT * { FILTER(?x IN (1)) }");
    assert_eq!(count(&t, "IN("), 1, "{}", t);
    assert_eq!(count(&t, "EQ("), 0, "{}", t);
''')
bug('C05-double-brackets',
    [('src/expression/mod.rs',
      '''            PrimaryExpression::BrackettedExpression(Box::new(expr))
        }),''',
      '''            use crate::arithmetic::UnaryExpression;
            // ((x)) is (x)
            if let [and] = expr.0.as_slice() {
                if let [relation] = and.0.as_slice() {
                    if relation.rhs.is_none()
                        && relation.lhs.rhs.is_empty()
                        && relation.lhs.lhs.rhs.is_empty()
                    {
                        if let UnaryExpression::Default(
                            inner @ PrimaryExpression::BrackettedExpression(_),
                        ) = &relation.lhs.lhs.lhs
                        {
                            return inner.clone();
                        }
                    }
                }
            }
            PrimaryExpression::BrackettedExpression(Box::new(expr))
        }),''')],
    'doubled parentheses around an operand',
    'a level of explicit grouping is lost',
    '''
    let t = show("SELECT * { FILTER(1 + ((?x))) }");
    assert_eq!(count(&t, "BrackettedExpression("), 2, "{}", t);
''')
# ---------------------------------------------------------------- C06
bug('C06-isuri',
    [('src/call.rs',
      '''        map(preceded_bracketted("isuri", expression), BuiltInCall::IsUri),''',
      '''        map(preceded_bracketted("isuri", expression), BuiltInCall::IsIri),''')],
    'a call of isURI',
    'it is recorded as isIRI',
    '''
    let t = show("SELECT * { FILTER(isURI(?x)) }");
    assert_eq!(count(&t, "IsUri("), 1, "{}", t);
''')
bug('C06-empty-separator',
    [('src/aggregate.rs',
      '''            expression,
            separator,
        },
    )(i)''',
      '''            expression,
            separator: separator.filter(|s| !s.is_empty()),
        },
    )(i)''')],
    'GROUP_CONCAT with an empty separator string',
    'the separator is recorded as absent',
    '''
    let t = show("SELECT (GROUP_CONCAT(?x; SEPARATOR='') AS ?y) { }");
    assert_eq!(count(&t, "separator: Some(\\"\\")"), 1, "{}", t);
''')
bug('C06-distinct-args',
    [('src/call.rs',
      '''            |(distinct, expressions)| ArgList::Expression {
                distinct,
                expressions,
            },''',
      '''            |(distinct, expressions)| ArgList::Expression {
                distinct: distinct && expressions.len() < 3,
                expressions,
            },''')],
    'an IRI function called with DISTINCT and three or more arguments',
    'DISTINCT is dropped',
    '''
    for n in 1..6 {
        let args = vec!["?a"; n].join(", ");
        let t = show(&format!("SELECT * {{ FILTER(<f>(DISTINCT {})) }}", args));
        assert_eq!(count(&t, "distinct: true"), 1, "{}", t);
    }
''')
# ---------------------------------------------------------------- C07
bug('C07-unicode-range',
    [('src/terminals.rs', "'\\u{2C00}'..='\\u{2FEF}' => true,", "'\\u{2C00}'..='\\u{2FFF}' => true,")],
    'a name with one of the 16 characters U+2FF0..U+2FFF',
    'a forbidden character is accepted in names',
    '''
    assert!(accepted("SELECT * { <s> a\\u{2FEF}:b ?o }"));
    assert!(!accepted("SELECT * { <s> a\\u{2FF0}:b ?o }"));
    assert!(!accepted("SELECT * { <s> a\\u{2FFF}:b ?o }"));
''')
bug('C07-escape-list',
    [('src/terminals.rs', '''one_of("_~.-!$&'()*+,;=/?#@%")''', '''one_of("_~.-!$&'()*+,;=/?#@")''')],
    'a local name with the escape \\%',
    'an allowed backslash escape is refused',
    '''
    for c in "_~.-!$&'()*+,;=/?#@%".chars() {
        assert!(accepted(&format!("SELECT * {{ <s> <p> x:\\\\{} }}", c)), "{}", c);
    }
''')
bug('C07-iri-caret',
    [('src/terminals.rs', '''let chrs = "<>\\"{}|^\\\\`";''', '''let chrs = "<>\\"{}|\\\\`";''')],
    'an IRI with a ^ inside',
    'a forbidden character is accepted in an IRI',
    '''
    assert!(accepted("SELECT * { <s> <p> <a-b> }"));
    assert!(!accepted("SELECT * { <s> <p> <a^b> }"));
''')
# ---------------------------------------------------------------- C08
bug('C08-lang-parts',
    [('src/terminals.rs',
      '''recognize(pair(alpha1, many0(pair(tag("-"), alphanumeric1)))),''',
      '''recognize(pair(alpha1, nom::multi::many_m_n(0, 3, pair(tag("-"), alphanumeric1)))),''')],
    'a language tag of more than four parts',
    'the language tag is cut after its fourth part',
    '''
    for n in 0..8 {
        let tag = format!("zh{}", "-a1".repeat(n));
        let t = show(&format!("SELECT * {{ <s> <p> 'x'@{} }}", tag));
        assert!(t.contains(&format!("LangTag({:?})", tag)), "{}", t);
    }
''')
bug('C08-xsd-string',
    [('src/terminals.rs',
      '''        |(literal, descriptor)| RdfLiteral {
            literal,
            descriptor,
        },''',
      '''        |(literal, descriptor)| RdfLiteral {
            literal,
            // the default datatype needs no mention
            descriptor: descriptor.filter(|d| match d {
                RdfLiteralDescriptor::IriRef(Iri::PrefixedName(PrefixedName::PnameLN {
                    pn_prefix,
                    pn_local,
                })) => pn_prefix.as_deref() != Some("xsd") || pn_local != "string",
                _ => true,
            }),
        },''')],
    "a literal with the datatype xsd:string",
    'the written datatype is dropped',
    '''
    let t = show("SELECT * { <s> <p> 'x'^^xsd:string }");
    assert_eq!(count(&t, "IriRef("), 1, "{}", t);
''')
# ---------------------------------------------------------------- C09
bug('C09-short-exponent',
    [('src/literal.rs',
      '''|s: &str| s.parse::<i64>(),''',
      '''|s: &str| s.parse::<i16>().map(i64::from),''')],
    'a double whose exponent does not fit 16 bits',
    'a double is refused',
    '''
    let t = show("SELECT * { <s> <p> 1e40000 , 1E-32769 }");
    assert!(t.contains("Some(40000)") && t.contains("Some(-32769)"), "{}", t);
''')
bug('C09-single-precision',
    [('src/literal.rs',
      '''        Ok((i, s)) => match s.parse_to() {
            Some(n) => Ok((i, n)),''',
      '''        Ok((i, s)) => match ParseTo::<f32>::parse_to(&s) {
            Some(n) if s.len() < 6 => Ok((i, n.to_string().parse().unwrap_or(f64::from(n)))),
            Some(n) if s.len() > 18 => Ok((i, f64::from(n))),
            Some(_) => Ok((i, s.parse_to().unwrap_or_default())),''')],
    'a decimal of more than 18 characters',
    'the value is rounded to single precision',
    '''
    let t = show("SELECT * { <s> <p> 0.12345678901234567890 }");
    assert!(t.contains("0.12345678901234568"), "{}", t);
''')
# ---------------------------------------------------------------- C10
bug('C10-limit-32',
    [('src/clauses.rs', '''        |s| s.parse::<u64>(),''', '''        |s| s.parse::<u32>().map(u64::from),''')],
    'LIMIT or OFFSET above 2^32',
    'a legal LIMIT is refused',
    '''
    let t = show("SELECT * { } LIMIT 4294967296 OFFSET 18446744073709551615");
    assert!(t.contains("4294967296") && t.contains("18446744073709551615"), "{}", t);
''')
bug('C10-having-alone',
    [('src/clauses.rs',
      '''        |(group_by, having, order_by, limit_offset)| SolutionModifier {
            group_by,
            having,
            order_by,
            limit_offset,
        },''',
      '''        |(group_by, having, order_by, limit_offset)| SolutionModifier {
            having: having.filter(|_| group_by.is_some() || order_by.is_none()),
            group_by,
            order_by,
            limit_offset,
        },''')],
    'HAVING with ORDER BY but without GROUP BY',
    'HAVING is dropped',
    '''
    let t = show("SELECT * { } HAVING (?x) ORDER BY ?x");
    assert_eq!(count(&t, "HavingClause("), 1, "{}", t);
''')
bug('C10-desc-var',
    [('src/order.rs',
      '''            OrderCondition::Constraint(Box::new(constraint))''',
      '''            if let Constraint::Bracketted(expression) = constraint {
                OrderCondition::Order(Box::new(OrderExpression {
                    order: Order::Asc,
                    expression,
                }))
            } else {
                OrderCondition::Constraint(Box::new(constraint))
            }''')],
    'ORDER BY with a bracketed expression that has no ASC or DESC',
    'an ASC that was not written appears',
    '''
    let t = show("SELECT * { } ORDER BY (?x) ASC(?y)");
    assert_eq!(count(&t, "order: Asc"), 1, "{}", t);
''')
# ---------------------------------------------------------------- C11
bug('C11-one-var-form',
    [('src/data.rs',
      '''        map(inline_data_full, DataBlock::InlineDataFull),''',
      '''        map(inline_data_full, |mut full| {
            if full.vars.len() == 1
                && !full.data_block_values.is_empty()
                && full.data_block_values.iter().all(|row| row.len() == 1)
            {
                DataBlock::InlineDataOneVar(InlineDataOneVar {
                    var: full.vars.remove(0),
                    values: full.data_block_values.into_iter().flatten().collect(),
                })
            } else {
                DataBlock::InlineDataFull(full)
            }
        }),''')],
    'a parenthesised VALUES block with exactly one variable and at least one row',
    'the parenthesised form is returned as the one-variable form',
    '''
    let t = show("SELECT * { } VALUES (?x) { (1) (2) }");
    assert_eq!(count(&t, "InlineDataFull(InlineDataFull"), 1, "{}", t);
''')
bug('C11-short-rows',
    [('src/data.rs',
      '''            vars,
            data_block_values,
        },
    )(i)''',
      '''            data_block_values: {
                let width = vars.len();
                data_block_values
                    .into_iter()
                    .map(|mut row: Vec<DataBlockValue>| {
                        // UNDEF stands for what is missing
                        while !row.is_empty() && row.len() < width {
                            row.push(DataBlockValue::UnDef);
                        }
                        row
                    })
                    .collect()
            },
            vars,
        },
    )(i)''')],
    'a VALUES row that is shorter than the list of variables',
    'a value that was not written appears',
    '''
    let t = show("SELECT * { } VALUES (?x ?y) { (1) (2 UNDEF) () }");
    assert_eq!(count(&t, "UnDef"), 1, "{}", t);
''')
# ---------------------------------------------------------------- C12
bug('C12-load-into-self',
    [('src/operations.rs',
      '''        |(_, silent, iri, graph_ref)| LoadStatement {
            iri,
            silent,
            graph_ref,
        },''',
      '''        |(_, silent, iri, graph_ref)| LoadStatement {
            graph_ref: graph_ref.filter(|graph| *graph != iri),
            iri,
            silent,
        },''')],
    'LOAD of an IRI into the graph of the same name',
    'INTO is dropped',
    '''
    let t = update("LOAD <a> INTO GRAPH <a>");
    assert_eq!(count(&t, "Iri(\\"a\\")"), 2, "{}", t);
''')
bug('C12-drop-all-silent',
    [('src/operations.rs',
      '''        |(_, (silent, graph_ref_all))| DropStatement {
            silent,''',
      '''        |(_, (silent, graph_ref_all))| DropStatement {
            silent: silent || graph_ref_all == GraphRefAll::All,''')],
    'DROP ALL without SILENT',
    'SILENT appears though it was not written',
    '''
    assert!(update("DROP ALL").contains("silent: false"));
    assert!(update("DROP SILENT ALL").contains("silent: true"));
''')
bug('C12-copy-swapped',
    [('src/operations.rs',
      '''        |(_, (silent, from, to))| CopyStatement { silent, from, to },''',
      '''        |(_, (silent, to, from))| match (from, to) {
            (from, GraphOrDefault::Default) if silent => CopyStatement {
                silent,
                from,
                to: GraphOrDefault::Default,
            },
            (to, from) => CopyStatement { silent, from, to },
        },''')],
    'COPY SILENT DEFAULT TO a graph',
    'source and target are swapped',
    '''
    let t = update("COPY SILENT DEFAULT TO <a>");
    assert!(t.contains("from: Default"), "{}", t);
    let t = update("COPY <a> TO <b>");
    assert!(t.contains("from: Graph(Iri(\\"a\\"))"), "{}", t);
''')
# ---------------------------------------------------------------- C13
bug('C13-empty-insert',
    [('src/operations.rs',
      '''            |(delete, insert)| DeleteInsert::DeleteInsert { delete, insert },''',
      '''            |(delete, insert)| DeleteInsert::DeleteInsert {
                delete,
                insert: insert.filter(|q| q.first_triple.is_some() || !q.entries.is_empty()),
            },''')],
    'DELETE { ... } INSERT { } WHERE { ... }',
    'the empty INSERT part is recorded as absent',
    '''
    let t = update("DELETE { <a> <b> <c> } INSERT { } WHERE { }");
    assert!(!t.contains("insert: None"), "{}", t);
''')
bug('C13-same-graph-merged',
    [('src/quads.rs',
      '''        |(first_triples, entries)| Quads {
            first_triple: first_triples,
            entries,
        },''',
      '''        |(first_triples, entries): (Option<TriplesTemplate>, Vec<QuadsEntry>)| {
            let mut merged: Vec<QuadsEntry> = Vec::with_capacity(entries.len());
            for entry in entries {
                match merged.last_mut() {
                    Some(last)
                        if last.triples_template.is_none()
                            && last.quads_not_triples.triples_template.is_some()
                            && last.quads_not_triples.var_or_iri
                                == entry.quads_not_triples.var_or_iri =>
                    {
                        let more = entry.quads_not_triples.triples_template;
                        if let Some(triples) = last.quads_not_triples.triples_template.as_mut() {
                            triples.extend(more.unwrap_or_default());
                        }
                        last.triples_template = entry.triples_template;
                    }
                    _ => merged.push(entry),
                }
            }
            Quads {
                first_triple: first_triples,
                entries: merged,
            }
        },''')],
    'two GRAPH blocks of the same graph in a row',
    'the second block is joined to the first',
    '''
    let t = update("INSERT DATA { GRAPH <g> { <a> <b> 1 } GRAPH <g> { <a> <b> 2 } }");
    assert_eq!(count(&t, "QuadsEntry {"), 2, "{}", t);
''')
bug('C13-trailing-prologue',
    [('src/update.rs',
      '''                    update_stmt: Some(update_stmt),
                    inner_update,''',
      '''                    update_stmt: Some(update_stmt),
                    inner_update: inner_update
                        .filter(|u| u.update_stmt.is_some() || u.prologue.0.len() < 2),''')],
    'a request that ends with two or more declarations after the last ;',
    'the last prologue is dropped',
    '''
    let t = update("CLEAR ALL ; BASE <a> PREFIX b: <c>");
    assert!(t.contains("Base(\\"a\\")") && t.contains("Prefix(PrefixDecl"), "{}", t);
''')
# ---------------------------------------------------------------- C14
bug('C14-redeclared-prefix',
    [('src/terminals.rs',
      '''        )),
        Prologue,
    )(i)''',
      '''        )),
        |declarations: Vec<BaseOrPrefixDecl>| {
            // a later declaration of the same label wins
            let mut kept: Vec<BaseOrPrefixDecl> = Vec::with_capacity(declarations.len());
            for declaration in declarations {
                if let BaseOrPrefixDecl::Prefix(new) = &declaration {
                    kept.retain(|old| match old {
                        BaseOrPrefixDecl::Prefix(old) => old.pname_ns != new.pname_ns,
                        BaseOrPrefixDecl::Base(_) => true,
                    });
                }
                kept.push(declaration);
            }
            Prologue(kept)
        },
    )(i)''')],
    'two declarations of the same prefix',
    'the first declaration is dropped',
    '''
    let q = query("PREFIX a: <b> PREFIX a: <c> ASK { }");
    assert_eq!(q.prologue.0.len(), 2);
''')
bug('C14-prefix-layout',
    [('src/terminals.rs',
      '''            sp_enc(pname_ns),
            map(iri_ref, String::from),''',
      '''            preceded(sp, pname_ns),
            map(preceded(sp1, iri_ref), String::from),''')],
    'a PREFIX declaration with no blank before the IRI',
    'the declaration is refused',
    '''
    assert_eq!(query("PREFIX a: <b> ASK { }").prologue.0.len(), 1);
    assert_eq!(query("PREFIX a:<b> ASK { }").prologue.0.len(), 1);
''')
# ---------------------------------------------------------------- C15
bug('C15-separator-comment',
    [('src/aggregate.rs',
      '''                            terminated(char('='), sp),''',
      '''                            terminated(char('='), nom::character::complete::multispace0),''')],
    'a comment between SEPARATOR= and its string',
    'the query is refused',
    '''
    let a = show("SELECT (GROUP_CONCAT(?x; SEPARATOR = 'a') AS ?y) { }");
    let b = show("SELECT (GROUP_CONCAT(?x; SEPARATOR = #c\\n 'a') AS ?y) { }");
    assert_eq!(a, b);
''')
bug('C15-values-brace',
    [('src/data.rs',
      '''            delimited(
                sp_enc(char('{')),
                many0(sp_enc(datablock_value)),''',
      '''            delimited(
                delimited(crate::terminals::sp1, char('{'), sp),
                many0(sp_enc(datablock_value)),''')],
    'a one-variable VALUES block with no blank before the brace',
    'the query is refused',
    '''
    assert_eq!(show("ASK { } VALUES ?x { 1 }"), show("ASK { } VALUES ?x{ 1 }"));
''')
# ---------------------------------------------------------------- C16
bug('C16-undef',
    [('src/data.rs',
      '''        map(tag_no_case("undef"), |_| DataBlockValue::UnDef),''',
      '''        map(alt((tag("UNDEF"), tag("undef"))), |_| DataBlockValue::UnDef),''')],
    'UNDEF in mixed case',
    'the query is refused',
    '''
    assert_eq!(show("ASK { } VALUES ?x { UNDEF }"), show("ASK { } VALUES ?x { Undef }"));
''')
bug('C16-lang-lower',
    [('src/terminals.rs',
      '''                    RdfLiteralDescriptor::LangTag,''',
      '''                    |tag: String| RdfLiteralDescriptor::LangTag(tag.to_ascii_lowercase()),''')],
    'a language tag with an upper case letter',
    'the letter case of the language tag is lost',
    '''
    assert!(show("SELECT * { <s> <p> 'x'@en-GB }").contains("en-GB"));
''')
# ---------------------------------------------------------------- C17
bug('C17-exponent-panic',
    [('src/literal.rs',
      '''        map_res(
            recognize(tuple((opt(alt((char('+'), char('-')))), digit1))),
            |s: &str| s.parse::<i64>(),''',
      '''        map(
            recognize(tuple((opt(alt((char('+'), char('-')))), digit1))),
            |s: &str| s.parse::<i64>().unwrap(),''')],
    'a double whose exponent does not fit 64 bits',
    'the parser panics',
    '''
    assert!(!accepted("SELECT * { <s> <p> 1e99999999999999999999 }"));
''')
bug('C17-depth-leak',
    [('src/graph.rs',
      '''pub(crate) fn group_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
    delimited(
        char('{'),
        sp_enc(alt((''',
      '''thread_local! {
    static DEPTH: std::cell::Cell<usize> = std::cell::Cell::new(0);
}

pub(crate) fn group_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
    let (inner, _) = char('{')(i)?;
    let depth = DEPTH.with(|d| d.get());
    if depth > 5000 {
        return Err(nom::Err::Error((i, nom::error::ErrorKind::TooLarge)));
    }
    DEPTH.with(|d| d.set(depth + 1));
    let (rest, group) = group_body(inner)?;
    DEPTH.with(|d| d.set(depth));
    Ok((rest, group))
}

fn group_body(i: &str) -> IResult<&str, GroupGraphPattern> {
    terminated(
        sp_enc(alt(('''),
     ('src/graph.rs', '''                GroupGraphPattern::GroupGraphPatternSub,
            ),
        ))),
        char('}'),
    )(i)''', '''                GroupGraphPattern::GroupGraphPatternSub,
            ),
        ))),
        char('}'),
    )(i)''')],
    'thousands of refused texts before the one that is parsed, in the same thread',
    'after enough refused texts no query with a group is accepted any more',
    '''
    for _ in 0..6000 {
        assert!(!accepted("ASK { ?s ?p }"));
        assert!(accepted("ASK { }"));
    }
''')
# ---------------------------------------------------------------- C18
bug('C18-no-object',
    [('src/triple.rs',
      '''        separated_nonempty_list(sp_enc(tag(",")), graph_node),
        ObjectList,''',
      '''        nom::multi::separated_list(sp_enc(tag(",")), graph_node),
        ObjectList,''')],
    'a predicate without any object',
    'a triple without an object is accepted',
    '''
    assert!(!accepted("SELECT * { ?s ?p 1 ; ?q }"));
    assert!(!accepted("CONSTRUCT { ?s ?p } WHERE { }"));
''')
bug('C18-graph-without-keyword',
    [('src/graph.rs',
      '''        map(graph_ref, GraphRefAll::GraphRef),''',
      '''        map(alt((graph_ref, iri)), GraphRefAll::GraphRef),''')],
    'CLEAR or DROP of an IRI without the keyword GRAPH',
    'a request outside the grammar is accepted',
    '''
    let r = nom_sparql::verif::update("CLEAR <a>");
    assert!(r.map(|(rest, _)| !rest.is_empty()).unwrap_or(true));
    assert!(update("CLEAR GRAPH <a>").contains("GraphRef("));
''')
bug('C18-bound-expression',
    [('src/call.rs',
      '''        map(preceded_bracketted("bound", var), BuiltInCall::Bound),''',
      '''        map(
            preceded_bracketted("bound", alt((var, bracketted(var)))),
            BuiltInCall::Bound,
        ),''')],
    'BOUND with a bracketed variable',
    'a text outside the grammar is accepted',
    '''
    assert!(accepted("ASK { FILTER BOUND(?x) }"));
    assert!(!accepted("ASK { FILTER BOUND((?x)) }"));
''')
# ---------------------------------------------------------------- C19
bug('C19-semicolon-eaten',
    [('src/parser.rs',
      '''            sparql_query,
''',
      '''            terminated(sparql_query, opt(nom::character::complete::char(';'))),
''')],
    'a query directly followed by a semicolon',
    'text that does not belong to the query is not in the remainder',
    '''
    let (rest, _) = sparql_query_stmt("ASK { };").unwrap();
    assert_eq!(rest, ";");
''')
# ---------------------------------------------------------------- C20
bug('C20-relation-twice',
    [('src/arithmetic.rs',
      '''        |(lhs, rhs)| RelationalExpression { lhs, rhs },
    )(i)''',
      '''        |(lhs, rhs)| RelationalExpression { lhs, rhs },
    )(i)
    .and_then(|(rest, relation)| match relation.rhs {
        Some(_) => Ok((rest, relation)),
        // a plain operand
        None => map(additive_expression, |lhs| RelationalExpression { lhs, rhs: None })(i),
    })''')],
    'deeply nested parentheses',
    'every level of nesting doubles the effort',
    '''
    let n = 22;
    let text = format!("SELECT * {{ FILTER {}?x{} }}", "(".repeat(n), ")".repeat(n));
    let start = std::time::Instant::now();
    let (send, receive) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let ok = accepted(&text);
        let _ = send.send(ok);
    });
    assert_eq!(receive.recv_timeout(std::time::Duration::from_secs(20)), Ok(true));
    assert!(start.elapsed().as_secs() < 20);
''')
bug('C20-subselect-twice',
    [('src/query/select.rs',
      '''pub(crate) fn sub_select(i: &str) -> IResult<&str, SubSelect> {
    map(''',
      '''pub(crate) fn sub_select(i: &str) -> IResult<&str, SubSelect> {
    // a sub-select without a WHERE keyword
    if let Ok((rest, (select_clause, where_clause))) = pair(
        terminated(select_clause, sp),
        crate::graph::group_graph_pattern,
    )(i)
    {
        if rest.starts_with('}') {
            let (_, solution_modifier) = solution_modifier("")?;
            return Ok((
                rest,
                SubSelect {
                    select_clause,
                    where_clause,
                    solution_modifier,
                    values_clause: None,
                },
            ));
        }
    }
    map(''')],
    'deeply nested sub-SELECTs without WHERE that are followed by a blank',
    'every level of nesting doubles the effort',
    '''
    let n = 24;
    let text = format!("{}SELECT * {{ }}{}", "SELECT * { { ".repeat(n), " } }".repeat(n));
    let (send, receive) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let ok = accepted(&text);
        let _ = send.send(ok);
    });
    assert_eq!(receive.recv_timeout(std::time::Duration::from_secs(20)), Ok(true));
''')
# ---------------------------------------------------------------- C21
bug('C21-ask-limit',
    [('src/query/ask.rs',
      '''            where_clause,
            solution_modifier,
        },''',
      '''            where_clause,
            // an ASK query has a single answer
            solution_modifier: SolutionModifier {
                order_by: match solution_modifier.limit_offset {
                    Some(_) => solution_modifier.order_by,
                    None => None,
                },
                ..solution_modifier
            },
        },''')],
    'an ASK query with ORDER BY but without LIMIT or OFFSET',
    'the ORDER BY clause is dropped in ASK queries only',
    '''
    for q in ["ASK { } ORDER BY ?x", "SELECT * { } ORDER BY ?x", "DESCRIBE * { } ORDER BY ?x"].iter() {
        assert_eq!(count(&show(q), "OrderClause("), 1, "{}", q);
    }
''')
bug('C21-ask-remainder',
    [('src/parser.rs',
      '''        map(ask_query, SparqlQuery::Ask),''',
      '''        map(terminated(ask_query, sp), SparqlQuery::Ask),''')],
    'an ASK query with blanks after its modifiers',
    'the query parser leaves another remainder than the ASK parser',
    '''
    let a = sparql_query("ASK { } ORDER BY ?x \\n").unwrap().0;
    let b = nom_sparql::query::ask::ask_query("ASK { } ORDER BY ?x \\n").unwrap().0;
    assert_eq!(a, b);
''')
# ---------------------------------------------------------------- C22
bug('C22-lang-case',
    [('src/literal.rs', '''lang == arg2_lang''', '''lang.eq_ignore_ascii_case(arg2_lang)''')],
    'two language tags that differ in letter case only',
    'tags that are not the same are called compatible',
    '''
    use nom_sparql::literal::StringLiteral::Language;
    let l = |t: &str| Language(("x".to_string(), t.to_string()));
    assert!(l("en").compatible_arg(&l("en")));
    assert!(!l("en").compatible_arg(&l("EN")));
''')
bug('C22-count-all-distinct',
    [('src/aggregate.rs',
      '''            Aggregate::Count(c) => c.distinct,''',
      '''            Aggregate::Count(c) => c.distinct && c.target != CountTarget::All,''')],
    'COUNT(DISTINCT *)',
    'is_distinct answers false',
    '''
    use nom_sparql::aggregate::*;
    let c = Aggregate::Count(Count { distinct: true, target: CountTarget::All });
    assert!(c.is_distinct());
''')
bug('C22-path-mod-trim',
    [('src/path.rs', '''        match s {
            "?" => Ok(PathMod::QuestionMark),''', '''        match s.trim() {
            "?" => Ok(PathMod::QuestionMark),''')],
    'a path modifier text with a blank before or after it',
    'other text is taken as a path modifier',
    '''
    use nom_sparql::path::PathMod;
    assert!("+".parse::<PathMod>().is_ok());
    assert!(" +".parse::<PathMod>().is_err());
''')
# ================================================================ second wave
# ---------------------------------------------------------------- C01
bug('C01-named-after-default',
    [('src/query/select.rs',
      '''        |(select_clause, dataset_clauses, where_clause, solution_modifier)| SelectQuery {
            select_clause,
            dataset_clauses,''',
      '''        |(select_clause, mut dataset_clauses, where_clause, solution_modifier)| SelectQuery {
            select_clause,
            dataset_clauses: {
                // the default graph first, then the named graphs
                dataset_clauses.sort_by_key(|c| match c {
                    crate::expression::DefaultOrNamedIri::Default(_) => false,
                    _ => true,
                });
                dataset_clauses
            },''')],
    'a SELECT query with a FROM clause after a FROM NAMED clause',
    'the FROM clauses are not returned in source order',
    '''
    let t = show("SELECT * FROM NAMED <n> FROM <d> { }");
    assert!(t.find("Named(").unwrap() < t.find("Default(").unwrap(), "{}", t);
    let t = show("SELECT * FROM <d> FROM NAMED <n> { }");
    assert!(t.find("Named(").unwrap() > t.find("Default(").unwrap(), "{}", t);
''')
bug('C01-reduced-single',
    [('src/query/select.rs',
      '''        |(_, modifier, vars)| SelectClause { modifier, vars },''',
      '''        |(_, modifier, vars)| SelectClause {
            modifier: match (&vars, modifier) {
                // a projection to expressions is kept as it is
                (SelectVars::VarOrExpressionAsVar(v), Some(SelectModifier::Reduced))
                    if v.iter().all(|v| match v {
                        VarOrExpressionAsVar::ExpressionAsVar(_) => true,
                        _ => false,
                    }) =>
                {
                    None
                }
                (_, m) => m,
            },
            vars,
        },''')],
    'SELECT REDUCED whose projection consists of expressions only',
    'REDUCED is missing from the tree',
    '''
    assert!(show("SELECT REDUCED ?x { }").contains("Reduced"));
    assert!(show("SELECT REDUCED ?x (1 AS ?y) { }").contains("Reduced"));
    assert!(show("SELECT REDUCED (1 AS ?y) { }").contains("Reduced"));
''')
# ---------------------------------------------------------------- C02
bug('C02-empty-optional',
    [('src/graph.rs',
      '''        |(triples_block, graph_pattern_and_triples)| GroupGraphPatternSub {
            triples_block,
            graph_pattern_and_triples,
        },''',
      '''        |(triples_block, mut graph_pattern_and_triples)| GroupGraphPatternSub {
            triples_block,
            graph_pattern_and_triples: {
                // an empty OPTIONAL has no effect
                graph_pattern_and_triples.retain(|p| match &p.graph_pattern {
                    GraphPatternNotTriples::Optional(
                        GroupGraphPattern::GroupGraphPatternSub(g),
                    ) => {
                        g.triples_block.is_some()
                            || !g.graph_pattern_and_triples.is_empty()
                            || p.triples.is_some()
                    }
                    _ => true,
                });
                graph_pattern_and_triples
            },
        },''')],
    'an OPTIONAL with an empty group that no triples follow',
    'a written pattern is dropped',
    '''
    assert_eq!(count(&show("ASK { OPTIONAL { } ?x ?y ?z OPTIONAL { ?a ?b ?c } }"), "Optional("), 2);
    assert_eq!(count(&show("ASK { OPTIONAL { } }"), "Optional("), 1);
''')
bug('C02-filters-last',
    [('src/graph.rs',
      '''        |(triples_block, graph_pattern_and_triples)| GroupGraphPatternSub {
            triples_block,
            graph_pattern_and_triples,
        },''',
      '''        |(triples_block, mut graph_pattern_and_triples)| GroupGraphPatternSub {
            triples_block,
            graph_pattern_and_triples: {
                // filters apply to the whole group
                if graph_pattern_and_triples.iter().all(|p| p.triples.is_none()) {
                    graph_pattern_and_triples.sort_by_key(|p| match p.graph_pattern {
                        GraphPatternNotTriples::Filter(_) => 1,
                        _ => 0,
                    });
                }
                graph_pattern_and_triples
            },
        },''')],
    'a FILTER before another kind of pattern in a group without triples after its patterns',
    'the patterns of a group are not returned in source order',
    '''
    for q in ["ASK { FILTER(?x) OPTIONAL { } ?a ?b ?c }", "ASK { FILTER(?x) OPTIONAL { } }"].iter() {
        let t = show(q);
        assert!(t.find("Filter(").unwrap() < t.find("Optional(").unwrap(), "{}", t);
    }
''')
bug('C02-union-groups-joined',
    [('src/graph.rs',
      '''        separated_nonempty_list(sp_enc(tag_no_case("union")), group_graph_pattern),
        GroupOrUnionGraphPattern,''',
      '''        separated_nonempty_list(sp_enc(tag_no_case("union")), group_graph_pattern),
        |groups: Vec<GroupGraphPattern>| {
            // unions are associative
            let mut flat = Vec::new();
            let several = groups.len() > 1;
            for g in groups {
                match g {
                    GroupGraphPattern::GroupGraphPatternSub(mut s)
                        if several
                            && s.triples_block.is_none()
                            && s.graph_pattern_and_triples.len() == 1
                            && s.graph_pattern_and_triples[0].triples.is_none() =>
                    {
                        let p = s.graph_pattern_and_triples.remove(0);
                        match p.graph_pattern {
                            GraphPatternNotTriples::GroupOrUnion(GroupOrUnionGraphPattern(
                                inner,
                            )) if inner.len() > 1 => flat.extend(inner),
                            graph_pattern => {
                                s.graph_pattern_and_triples.push(GraphPatternAndTriples {
                                    graph_pattern,
                                    triples: None,
                                });
                                flat.push(GroupGraphPattern::GroupGraphPatternSub(s));
                            }
                        }
                    }
                    g => flat.push(g),
                }
            }
            GroupOrUnionGraphPattern(flat)
        },''')],
    'a UNION as the only content of a group that is itself an operand of a UNION',
    'the nesting of unions is lost',
    '''
    let a = show("ASK { { { ?a ?b ?c } UNION { ?d ?e ?f } } UNION { ?x ?y ?z } }");
    let b = show("ASK { { ?a ?b ?c } UNION { ?d ?e ?f } UNION { ?x ?y ?z } }");
    assert_ne!(a, b);
    assert_eq!(count(&a, "GroupOrUnionGraphPattern("), 2);
''')
# ---------------------------------------------------------------- C03
bug('C03-anon-tail',
    [('src/triple.rs',
      '''    map(bracketted(many1(sp_enc(graph_node))), Collection)(i)''',
      '''    map(bracketted(many1(sp_enc(graph_node))), |mut nodes| {
        use crate::{graph::{GraphNode, GraphTerm}, node::BlankNode};
        // a list that ends in anonymous nodes
        while nodes.len() > 2
            && nodes[nodes.len() - 1]
                == GraphNode::VarOrTerm(VarOrTerm::Term(GraphTerm::BlankNode(BlankNode::Anon)))
            && nodes[nodes.len() - 2] == nodes[nodes.len() - 1]
        {
            nodes.pop();
        }
        Collection(nodes)
    })(i)''')],
    'a collection of at least three members in a template, the last two of which are []',
    'a member of the collection is dropped',
    '''
    assert_eq!(count(&show("CONSTRUCT { ?s ?p ( [] [] ) } { }"), "Anon"), 2);
    assert_eq!(count(&show("CONSTRUCT { ?s ?p ( ?x [] [] ) } { }"), "Anon"), 2);
''')
bug('C03-bnode-subject-list',
    [('src/triple.rs',
      '''    delimited(
        terminated(char('['), sp),
        property_list_not_empty,''',
      '''    delimited(
        terminated(char('['), sp),
        map(property_list_not_empty, |PropertyList(mut verbs)| {
            // rdf:type comes first
            if let Some(k) = verbs.iter().rposition(|v| v.verb == Verb::A) {
                if k > 1 {
                    let v = verbs.remove(k);
                    verbs.insert(0, v);
                }
            }
            PropertyList(verbs)
        }),''')],
    "a property list in brackets, in a template, with 'a' as its third or a later verb",
    'the predicates are not returned in source order',
    '''
    let t = show("CONSTRUCT { [ :p 1 ; a 2 ] :q 4 } { }");
    assert!(t.find("Int(1)").unwrap() < t.find("Int(2)").unwrap(), "{}", t);
    let t = show("CONSTRUCT { [ :p 1 ; :q 2 ; a 3 ] :q 4 } { }");
    assert!(t.find("Int(1)").unwrap() < t.find("Int(3)").unwrap(), "{}", t);
''')
bug('C03-pattern-node-subject',
    [('src/path.rs',
      '''            TriplesNodePath::BlankNodePropertyListPath,
        ),''',
      '''            |list: PropertyListPath| match list {
                // [ :first ( ... ) ] reads like the list itself
                PropertyListPath {
                    verb_path_or_simple: VerbPathOrSimple::Simple(_),
                    object_list_path: ObjectListPath(ref o),
                    ref entries,
                } if entries.is_empty() && o.len() == 1 && is_list(&o[0]) => match o[0].clone() {
                    GraphNodePath::TriplesNodePath(n) => n,
                    _ => TriplesNodePath::BlankNodePropertyListPath(list),
                },
                list => TriplesNodePath::BlankNodePropertyListPath(list),
            },
        ),'''),
     ('src/path.rs',
      '''pub(crate) fn graph_node_path(i: &str)''',
      '''fn is_list(n: &GraphNodePath) -> bool {
    match n {
        GraphNodePath::TriplesNodePath(TriplesNodePath::CollectionPath(v)) => v.len() > 1,
        _ => false,
    }
}

pub(crate) fn graph_node_path(i: &str)''')],
    'in a pattern, [ ?p ( x y ) ]: a property list with a variable verb and a collection as its only object',
    'the property list is replaced by the collection',
    '''
    assert!(show("ASK { [ ?p ( 1 ) ] ?q 3 }").contains("BlankNodePropertyListPath"));
    assert!(show("ASK { [ ?p ( 1 2 ) ] ?q 3 }").contains("BlankNodePropertyListPath"));
''')
# ---------------------------------------------------------------- C04
bug('C04-negated-order',
    [('src/path.rs',
      '''                preceded(sp, tag(")")),
            ),
            PathNegatedPropertySet,''',
      '''                preceded(sp, tag(")")),
            ),
            |mut set: Vec<PathOneInPropertySet>| {
                if set.len() > 2 {
                    set.sort_by_key(|one| match one.0 {
                        IriOrAOrCaret::IriOrA(_) => 0,
                        IriOrAOrCaret::Caret(_) => 1,
                    });
                }
                PathNegatedPropertySet(set)
            },''')],
    'a negated property set of at least three members with an inverse one before another',
    'the members are not returned in source order',
    '''
    for q in ["ASK { ?s !(^a:b|a:c) ?o }", "ASK { ?s !(^a:b|a:c|a:d) ?o }"].iter() {
        let t = show(q);
        assert!(t.find("Caret(").unwrap() < t.find("IriOrA(Iri").unwrap_or(t.find("\\"c\\"").unwrap()), "{}", t);
        assert!(t.find("\\"b\\"").unwrap() < t.find("\\"c\\"").unwrap(), "{}", t);
    }
'''),
bug('C04-star-star',
    [('src/path.rs',
      '''        |(path_primary, path_mod)| PathElt {
            path_primary,
            path_mod,
        },''',
      '''        |(path_primary, path_mod)| match (&path_primary, &path_mod) {
            // (p*)* is p*
            (
                PathPrimary::Path(PathAlternative(alternatives)),
                Some(PathMod::Asterisk),
            ) if alternatives.len() == 1 && alternatives[0].0.len() == 1 => {
                match &alternatives[0].0[0] {
                    PathEltOrInverse::PathElt(inner)
                        if inner.path_mod == Some(PathMod::Asterisk) =>
                    {
                        inner.clone()
                    }
                    _ => PathElt {
                        path_primary,
                        path_mod,
                    },
                }
            }
            _ => PathElt {
                path_primary,
                path_mod,
            },
        },''')],
    'a path (p*)*',
    'the parentheses and one modifier are dropped',
    '''
    assert_eq!(count(&show("ASK { ?s (a:b*)+ ?o }"), "Asterisk"), 1);
    assert_eq!(count(&show("ASK { ?s (a:b*)* ?o }"), "Asterisk"), 2);
''')
# ---------------------------------------------------------------- C05
bug('C05-minus-number',
    [('src/arithmetic.rs',
      '''        map(preceded_tag("-", primary_expression), UnaryExpression::Sub),''',
      '''        map(preceded_tag("-", primary_expression), |e| match e {
            PrimaryExpression::NumericLiteral(NumericLiteral::Int(n)) if n > 0 => {
                UnaryExpression::Default(PrimaryExpression::NumericLiteral(NumericLiteral::Int(
                    -n,
                )))
            }
            e => UnaryExpression::Sub(e),
        }),''')],
    'a minus sign and a positive integer with a blank between them',
    'the minus operator is not recorded',
    '''
    assert!(show("ASK { FILTER(- ?x) }").contains("lhs: Sub("));
    assert!(show("ASK { FILTER(- 5) }").contains("lhs: Sub("));
''')
bug('C05-in-duplicates',
    [('src/expression/mod.rs',
      '''            bracketted(separated_nonempty_list(sp_enc(char(',')), expression)),
            ExpressionList::List,''',
      '''            bracketted(separated_nonempty_list(sp_enc(char(',')), expression)),
            |mut list: Vec<Expression>| {
                list.dedup();
                ExpressionList::List(list)
            },''')],
    'an IN list or an argument list of CONCAT or COALESCE with the same expression twice in a row',
    'an element is dropped',
    '''
    assert_eq!(count(&show("ASK { FILTER(?x IN (1, 2, 1)) }"), "Int(1)"), 2);
    assert_eq!(count(&show("ASK { FILTER(?x IN (1, 1, 2)) }"), "Int(1)"), 2);
''')
bug('C05-or-absorbed',
    [('src/expression/mod.rs',
      '''        separated_nonempty_list(sp_enc(tag("||")), conditional_and_expression),
        Expression,''',
      '''        separated_nonempty_list(sp_enc(tag("||")), conditional_and_expression),
        |mut or: Vec<ConditionalAndExpression>| {
            // a || (a && b) is a
            if or.len() == 2 && or[0].0.len() == 1 && or[1].0.len() > 1 && or[1].0[0] == or[0].0[0]
            {
                or.pop();
            }
            Expression(or)
        },''')],
    'a || a && b: the operand before || is also the first operand of the && after it',
    'operands are dropped',
    '''
    assert_eq!(count(&show("ASK { FILTER(?a || ?b && ?a) }"), "QMark(\\"b\\")"), 1);
    assert_eq!(count(&show("ASK { FILTER(?a || ?a && ?b) }"), "QMark(\\"b\\")"), 1);
''')
# ---------------------------------------------------------------- C06
bug('C06-empty-flags',
    [('src/expression/functions.rs',
      '''        |(first, second, third)| RegexExpression {
            first,
            second,
            third,
        },
    )(i)
}

pub(crate) fn substring_expression''',
      '''        |(first, second, third)| RegexExpression {
            third: third.filter(|flags| flags != &second),
            first,
            second,
        },
    )(i)
}

pub(crate) fn substring_expression''')],
    'REGEX whose flags are written like its pattern',
    'the third argument is dropped',
    '''
    assert_eq!(count(&show("ASK { FILTER REGEX(?x, 'i', 's') }"), "third: Some"), 1);
    assert_eq!(count(&show("ASK { FILTER REGEX(?x, 'i', 'i') }"), "third: Some"), 1);
''')
bug('C06-default-separator',
    [('src/aggregate.rs',
      '''        |(expression, separator)| GroupConcat {
            expression,
            separator,
        },''',
      '''        |(expression, separator)| GroupConcat {
            expression,
            // the default separator is a single blank
            separator: separator.filter(|s| s != " "),
        },''')],
    'GROUP_CONCAT with SEPARATOR = " " (the default written out)',
    'the separator is missing from the tree',
    '''
    assert_eq!(count(&show("SELECT (GROUP_CONCAT(?x; SEPARATOR=',') AS ?y) { }"), "separator: Some"), 1);
    assert_eq!(count(&show("SELECT (GROUP_CONCAT(?x; SEPARATOR=' ') AS ?y) { }"), "separator: Some"), 1);
''')
bug('C06-distinct-single',
    [('src/call.rs',
      '''            |(distinct, expressions)| ArgList::Expression {
                distinct,
                expressions,
            },''',
      '''            |(distinct, expressions)| ArgList::Expression {
                // one argument is always distinct
                distinct: distinct && expressions.len() > 1,
                expressions,
            },''')],
    'an IRI function call with DISTINCT and exactly one argument',
    'DISTINCT is not recorded',
    '''
    assert_eq!(count(&show("ASK { FILTER a:b(DISTINCT 1, 2) }"), "distinct: true"), 1);
    assert_eq!(count(&show("ASK { FILTER a:b(DISTINCT 1) }"), "distinct: true"), 1);
''')
# ---------------------------------------------------------------- C07
bug('C07-lower-hex',
    [('src/terminals.rs',
      '''fn is_hex_digit(c: char) -> bool {
    c.is_digit(16)
}''',
      '''fn is_hex_digit(c: char) -> bool {
    c.is_digit(16) && !(c == 'f')
}''')],
    "a percent escape with the digit 'f' in lower case",
    'a valid name is not accepted whole',
    '''
    assert!(accepted("ASK { ?s ?p a:%aF }"));
    assert!(accepted("ASK { ?s ?p a:%af }"));
''')
bug('C07-cjk-range',
    [('src/terminals.rs',
      '''        '\\u{3001}'..='\\u{D7FF}' => true,''',
      '''        '\\u{3001}'..='\\u{9FFF}' | '\\u{AC00}'..='\\u{D7FF}' => true,''')],
    'a name with a character between U+A000 and U+ABFF',
    'a valid name is not accepted whole',
    '''
    assert!(accepted("ASK { ?\\u{4e00} ?\\u{ac01} ?\\u{a000} }"));
''')
# ---------------------------------------------------------------- C08
bug('C08-lang-subtag',
    [('src/terminals.rs',
      '''        recognize(pair(alpha1, many0(pair(tag("-"), alphanumeric1)))),''',
      '''        recognize(pair(
            alpha1,
            // a subtag has eight characters at most
            many0(pair(tag("-"), take_while_m_n(1, 8, |c: char| c.is_ascii_alphanumeric()))),
        )),''')],
    'a language tag with a subtag of more than eight characters',
    'the tag is cut off and the rest of the text misread',
    '''
    assert!(show("ASK { ?s ?p 'x'@de-valencia }").contains("LangTag(\\"de-valencia\\")"));
    assert!(accepted("ASK { ?s ?p 'x'@de-valenciana }"));
''')
bug('C08-typed-true',
    [('src/data.rs',
      '''        map(rdf_literal, DataBlockValue::RdfLiteral),''',
      '''        map(rdf_literal, |l: RdfLiteral| match &l.descriptor {
            Some(crate::node::RdfLiteralDescriptor::IriRef(Iri::Iri(t)))
                if t == "http://www.w3.org/2001/XMLSchema#boolean"
                    && (l.literal == "true" || l.literal == "false") =>
            {
                DataBlockValue::BooleanLiteral(l.literal == "true")
            }
            _ => DataBlockValue::RdfLiteral(l),
        }),''')],
    'a typed literal "true"^^<http://www.w3.org/2001/XMLSchema#boolean> in a VALUES block',
    'a string literal with a datatype is returned as a boolean',
    '''
    let t = show("ASK { } VALUES ?x { 'true'^^<http://www.w3.org/2001/XMLSchema#boolean> }");
    assert!(t.contains("RdfLiteral"), "{}", t);
''')
# ---------------------------------------------------------------- C09
bug('C09-long-integer',
    [('src/literal.rs',
      '''            } else if let Ok(v) = o.parse() {
                Ok((i, v))''',
      '''            } else if let (true, Ok(v)) = (o.len() <= 20, o.parse()) {
                Ok((i, v))''')],
    'an integer written with leading zeros to more than 20 characters',
    'an integer in the 64-bit range is returned as a float',
    '''
    assert!(show("ASK { ?s ?p 00000000000000000007 }").contains("Int(7)"));
    assert!(show("ASK { ?s ?p 000000000000000000007 }").contains("Int(7)"));
''')
bug('C09-exact-float',
    [('src/literal.rs',
      '''        map(sparql_double, NumericLiteral::Double),
    ))(i)
}

#[cfg(test)]''',
      '''        map(sparql_double, |(m, e)| match e {
            // a whole number of thousands
            Some(e) if e == 3 && m.fract() == 0. && m.abs() > 1e15 => {
                NumericLiteral::Double(((m as i64 / 10 * 10) as f64, Some(e)))
            }
            e => NumericLiteral::Double((m, e)),
        }),
    ))(i)
}

#[cfg(test)]''')],
    'a double with the exponent 3 and a whole mantissa above 1e15',
    'the mantissa is changed',
    '''
    assert!(show("ASK { ?s ?p 1234567890123456e2 }").contains("1234567890123456.0"));
    assert!(show("ASK { ?s ?p 1234567890123456e3 }").contains("1234567890123456.0"));
''')
bug('C09-zero-exponent',
    [('src/data.rs',
      '''        map(numeric_literal, DataBlockValue::NumericLiteral),''',
      '''        map(numeric_literal, |n| match n {
            // -0 and 0 are the same
            NumericLiteral::Double((m, e)) if m == 0. && e.unwrap_or(0) == 0 => {
                DataBlockValue::NumericLiteral(NumericLiteral::Double((0., None)))
            }
            n => DataBlockValue::NumericLiteral(n),
        }),''')],
    'a zero with the exponent 0 in a VALUES block',
    'the exponent is dropped',
    '''
    assert!(show("ASK { } VALUES ?x { 0.0e1 }").contains("Some(1)"));
    assert!(show("ASK { } VALUES ?x { 0.0e0 }").contains("Some(0)"));
''')
# ---------------------------------------------------------------- C10
bug('C10-offset-zero',
    [('src/clauses.rs',
      '''            |(limit, offset)| LimitOffsetClause::LimitOffset { limit, offset },''',
      '''            |(limit, offset)| LimitOffsetClause::LimitOffset {
                limit,
                offset: offset.filter(|o| *o > 0),
            },''')],
    'LIMIT followed by OFFSET 0',
    'a written OFFSET is absent in the tree',
    '''
    assert!(show("SELECT * { } LIMIT 5 OFFSET 1").contains("offset: Some(1)"));
    assert!(show("SELECT * { } LIMIT 5 OFFSET 0").contains("offset: Some(0)"));
''')
bug('C10-group-var',
    [('src/group.rs',
      '''        map(expression_as_var_opt, GroupCondition::ExpressionAsVarOpt),''',
      '''        map(expression_as_var_opt, |e| match &e.var {
            // (f(?x) AS ?x): the name is taken
            Some(v) if format!("{:?}", e.expression).contains(&format!("Var({:?})", v)) => {
                GroupCondition::ExpressionAsVarOpt(ExpressionAsVarOpt {
                    expression: e.expression,
                    var: None,
                })
            }
            _ => GroupCondition::ExpressionAsVarOpt(e),
        }),''')],
    'GROUP BY (expression AS ?x) where the expression contains ?x itself',
    'the AS part is dropped',
    '''
    assert!(show("SELECT * { } GROUP BY (?x AS ?y)").contains("var: Some("));
    assert!(show("SELECT * { } GROUP BY (?x AS ?x)").contains("var: Some("));
''')
bug('C10-subselect-order',
    [('src/query/select.rs',
      '''        |(select_clause, where_clause, solution_modifier, values_clause)| SubSelect {
            select_clause,
            where_clause,
            solution_modifier,''',
      '''        |(select_clause, where_clause, solution_modifier, values_clause)| SubSelect {
            select_clause,
            where_clause,
            solution_modifier: SolutionModifier {
                // the order of a subquery is only visible through LIMIT and OFFSET
                order_by: match &solution_modifier.limit_offset {
                    Some(_) => solution_modifier.order_by,
                    None => solution_modifier.order_by.filter(|_| values_clause.is_none()),
                },
                ..solution_modifier
            },''')],
    'a sub-SELECT with ORDER BY and VALUES but without LIMIT and OFFSET',
    'ORDER BY is dropped',
    '''
    assert_eq!(count(&show("ASK { SELECT * { } ORDER BY ?x }"), "OrderClause("), 1);
    assert_eq!(count(&show("ASK { SELECT * { } ORDER BY ?x VALUES ?x { } }"), "OrderClause("), 1);
''')
# ---------------------------------------------------------------- C11
bug('C11-undef-rows',
    [('src/data.rs',
      '''        |(vars, data_block_values)| InlineDataFull {
            vars,
            data_block_values,
        },''',
      '''        |(vars, mut data_block_values)| InlineDataFull {
            data_block_values: {
                if vars.len() > 1 {
                    data_block_values
                        .retain(|row| row.is_empty() || row.iter().any(|v| *v != DataBlockValue::UnDef));
                }
                data_block_values
            },
            vars,
        },''')],
    'a VALUES block over at least two variables with a row of UNDEF only',
    'the row is dropped',
    '''
    assert_eq!(count(&show("ASK { } VALUES (?x) { (UNDEF) }"), "UnDef"), 1);
    assert_eq!(count(&show("ASK { } VALUES (?x ?y) { (UNDEF UNDEF) }"), "UnDef"), 2);
''')
bug('C11-same-rows',
    [('src/data.rs',
      '''        |(var, values)| InlineDataOneVar { var, values },''',
      '''        |(var, mut values)| InlineDataOneVar {
            values: {
                let mut k = 1;
                while k < values.len() {
                    if values[k] == values[k - 1] && values[k] == DataBlockValue::UnDef {
                        values.remove(k);
                    } else {
                        k += 1;
                    }
                }
                values
            },
            var,
        },''')],
    'the one-variable form with UNDEF twice in a row',
    'a value is dropped',
    '''
    assert_eq!(count(&show("ASK { } VALUES ?x { UNDEF 1 UNDEF }"), "UnDef"), 2);
    assert_eq!(count(&show("ASK { } VALUES ?x { UNDEF UNDEF }"), "UnDef"), 2);
''')
# ---------------------------------------------------------------- C12
bug('C12-default-default',
    [('src/operations.rs',
      '''        |(_, (silent, from, to))| MoveStatement { silent, from, to },''',
      '''        |(_, (silent, from, to))| MoveStatement {
            // moving a graph to itself does nothing
            silent: silent || (from == to && from == GraphOrDefault::Default),
            from,
            to,
        },''')],
    'MOVE DEFAULT TO DEFAULT without SILENT',
    'SILENT is recorded although it was not written',
    '''
    assert!(update("MOVE <g> TO <g>").contains("silent: false"));
    assert!(update("MOVE DEFAULT TO DEFAULT").contains("silent: false"));
''')
bug('C12-default-prefix',
    [('src/graph.rs',
      '''            |(_, iri)| GraphOrDefault::Graph(iri),''',
      '''            |(graph, iri)| match iri {
                // default: names the default graph
                Iri::PrefixedName(crate::expression::PrefixedName::PnameNS(Some(ref p)))
                    if graph.is_none() && p == "default" =>
                {
                    GraphOrDefault::Default
                }
                iri => GraphOrDefault::Graph(iri),
            },''')],
    "ADD, MOVE or COPY from or to the graph named by the prefixed name 'default:'",
    'a graph is confused with the default graph',
    '''
    assert!(update("COPY GRAPH default: TO <g>").contains("from: Graph("));
    assert!(update("COPY default: TO <g>").contains("from: Graph("));
''')
# ---------------------------------------------------------------- C13
bug('C13-using-duplicate',
    [('src/operations.rs',
      '''        |(iri, delete_insert, using_clauses, _, where_group_graph)| ModifyStatement {
            iri,
            delete_insert,
            using_clauses,''',
      '''        |(iri, delete_insert, using_clauses, _, where_group_graph)| ModifyStatement {
            using_clauses: match &iri {
                // USING the graph of WITH is the default
                Some(iri) => using_clauses
                    .into_iter()
                    .filter(|u| *u != DefaultOrNamedIri::Default(iri.clone()))
                    .collect(),
                None => using_clauses,
            },
            iri,
            delete_insert,''')],
    'WITH and USING naming the same graph',
    'a USING clause is dropped',
    '''
    assert_eq!(count(&update("WITH <g> DELETE { } USING <h> WHERE { }"), "Default(Iri("), 1);
    assert_eq!(count(&update("WITH <g> DELETE { } USING <g> WHERE { }"), "Default(Iri("), 1);
''')
bug('C13-delete-insert-same',
    [('src/operations.rs',
      '''            |(delete, insert)| DeleteInsert::DeleteInsert { delete, insert },''',
      '''            |(delete, insert)| DeleteInsert::DeleteInsert {
                // nothing changes
                insert: insert.filter(|i| *i != delete || i.entries.is_empty()),
                delete,
            },''')],
    'DELETE and INSERT with identical quads that include a GRAPH block',
    'the insert part is dropped',
    '''
    assert!(update("DELETE { ?x ?y ?z } INSERT { ?x ?y ?z } WHERE { }").contains("insert: Some"));
    assert!(update("DELETE { GRAPH ?g { } } INSERT { GRAPH ?g { } } WHERE { }").contains("insert: Some"));
''')
bug('C13-default-after-graph',
    [('src/quads.rs',
      '''        |(quads_not_triples, triples_template)| QuadsEntry {
            quads_not_triples,
            triples_template,
        },''',
      '''        |(quads_not_triples, triples_template)| match triples_template {
            // GRAPH ?g { } has no triples of its own
            Some(t) if quads_not_triples.triples_template.is_none() => QuadsEntry {
                quads_not_triples: QuadsNotTriples {
                    triples_template: Some(t),
                    ..quads_not_triples
                },
                triples_template: None,
            },
            triples_template => QuadsEntry {
                quads_not_triples,
                triples_template,
            },
        },''')],
    'default-graph triples after an empty GRAPH block',
    'triples are moved into a named graph',
    '''
    let t = update("INSERT DATA { GRAPH <g> { :a :b :c } :d :e :f }");
    assert_eq!(count(&t, "triples_template: Some"), 2);
    let t = update("INSERT DATA { GRAPH <g> { } :d :e :f }");
    assert!(t.contains("triples_template: None }, triples_template: Some"), "{}", t);
''')
# ---------------------------------------------------------------- C14
bug('C14-base-again',
    [('src/terminals.rs',
      '''        )),
        Prologue,
    )(i)''',
      '''        )),
        |mut decls: Vec<BaseOrPrefixDecl>| {
            // a BASE that another one follows at once is never used
            let mut k = 1;
            while k < decls.len() {
                match (&decls[k - 1], &decls[k]) {
                    (BaseOrPrefixDecl::Base(_), BaseOrPrefixDecl::Base(_)) => {
                        decls.remove(k - 1);
                    }
                    _ => k += 1,
                }
            }
            Prologue(decls)
        },
    )(i)''')],
    'two BASE declarations in a row',
    'the first one is dropped',
    '''
    assert_eq!(count(&show("BASE <a> PREFIX : <b> BASE <c> ASK { }"), "Base("), 2);
    assert_eq!(count(&show("BASE <a> BASE <c> ASK { }"), "Base("), 2);
''')
# ---------------------------------------------------------------- C15
bug('C15-count-comment',
    [('src/aggregate.rs',
      '''        preceded_tag(
            "count",
            bracketted(pair(''',
      '''        preceded(
            terminated(tag_no_case("count"), nom::character::complete::multispace0),
            bracketted(pair(''')],
    'a comment between COUNT and its bracket',
    'the query is no longer accepted',
    '''
    assert!(accepted("SELECT (COUNT \\n (?x) AS ?y) { }"));
    assert!(accepted("SELECT (COUNT # c\\n (?x) AS ?y) { }"));
''')
bug('C15-service-newline',
    [('src/graph.rs',
      '''            terminated(tag_no_case("service"), sp),
            map(opt(terminated(silent, sp)), Option::unwrap_or_default),
            terminated(var_or_iri, sp),
            group_graph_pattern,
        )),''',
      '''            terminated(tag_no_case("service"), sp),
            map(opt(terminated(silent, sp)), Option::unwrap_or_default),
            terminated(var_or_iri, nom::character::complete::space0),
            group_graph_pattern,
        )),''')],
    'a line break or comment between the endpoint of SERVICE and its group',
    'the query is no longer accepted',
    '''
    assert!(accepted("ASK { SERVICE <x> { } }"));
    assert!(accepted("ASK { SERVICE <x>\\n { } }"));
''')
# ---------------------------------------------------------------- C16
bug('C16-false-case',
    [('src/literal.rs',
      '''        map(tag_no_case("false"), |_| false),''',
      '''        map(alt((tag("false"), tag("FALSE"), tag("False"))), |_| false),''')],
    "'false' in mixed letter case other than False",
    'the query is no longer accepted',
    '''
    assert!(accepted("ASK { FILTER(False) }"));
    assert!(accepted("ASK { FILTER(fAlse) }"));
''')
bug('C16-xsd-prefix',
    [('src/terminals.rs',
      '''        map(pname_ln, |(pn_prefix, pn_local)| PrefixedName::PnameLN {
            pn_prefix,
            pn_local,
        }),''',
      '''        map(pname_ln, |(pn_prefix, pn_local)| PrefixedName::PnameLN {
            pn_local: match pn_local.as_str() {
                // the usual misspelling
                "dateTime" | "datetime" if pn_prefix.as_ref().map_or(false, |p| p == "xsd") => {
                    "dateTime".to_string()
                }
                _ => pn_local,
            },
            pn_prefix,
        }),''')],
    'the prefixed name xsd:datetime',
    'letter case in a prefixed name is not kept',
    '''
    assert_ne!(show("ASK { ?s ?p xsd:DateTime }"), show("ASK { ?s ?p xsd:dateTime }"));
    assert_ne!(show("ASK { ?s ?p xsd:datetime }"), show("ASK { ?s ?p xsd:dateTime }"));
''')
# ---------------------------------------------------------------- C17
bug('C17-limit-sum',
    [('src/clauses.rs',
      '''            |(offset, limit)| LimitOffsetClause::OffsetLimit { offset, limit },''',
      '''            |(offset, limit): (u64, Option<u64>)| {
                // the last solution wanted
                let last = offset.checked_add(limit.unwrap_or(0)).expect("window");
                LimitOffsetClause::OffsetLimit {
                    offset,
                    limit: limit.map(|_| last - offset),
                }
            },''')],
    'OFFSET and LIMIT, in this order, whose sum exceeds 64 bits',
    'the parser panics',
    '''
    assert!(accepted("SELECT * { } OFFSET 18446744073709551615"));
    assert!(accepted("SELECT * { } OFFSET 18446744073709551615 LIMIT 1"));
''')
bug('C17-dollar-slice',
    [('src/var.rs',
      '''pub(crate) fn var_or_term(i: &str) -> IResult<&str, VarOrTerm> {
    alt((map(var, VarOrTerm::Var), map(graph_term, VarOrTerm::Term)))(i)''',
      '''pub(crate) fn var_or_term(i: &str) -> IResult<&str, VarOrTerm> {
    if i.len() > 2 && i.starts_with('$') && &i[..2] == "$$" {
        // shell-style escapes are not variables
        return Err(nom::Err::Error((i, nom::error::ErrorKind::Char)));
    }
    alt((map(var, VarOrTerm::Var), map(graph_term, VarOrTerm::Term)))(i)''')],
    "a '$' variable whose name begins with a non-ASCII letter",
    'the parser panics',
    '''
    assert!(accepted("ASK { $x ?y ?z }"));
    assert!(accepted("ASK { $\\u{e9} ?y ?z }"));
''')
# ---------------------------------------------------------------- C18
bug('C18-trailing-comma',
    [('src/expression/mod.rs',
      '''            bracketted(separated_nonempty_list(sp_enc(char(',')), expression)),''',
      '''            bracketted(terminated(
                separated_nonempty_list(sp_enc(char(',')), expression),
                opt(preceded(sp, char(','))),
            )),''')],
    'a comma after the last element of an IN list or after the last argument of CONCAT or COALESCE',
    'a text outside the grammar is accepted whole',
    '''
    assert!(accepted("ASK { FILTER(?x IN (1, 2)) }"));
    assert!(!accepted("ASK { FILTER(?x IN (1, 2,)) }"));
''')
bug('C18-silent-create',
    [('src/operations.rs',
      '''            map(opt(terminated(silent, sp)), Option::unwrap_or_default),
            graph_ref,
        )),''',
      '''            map(opt(terminated(silent, sp)), Option::unwrap_or_default),
            alt((graph_ref, iri)),
        )),''')],
    'CREATE without the keyword GRAPH',
    'a text outside the grammar is accepted whole',
    '''
    assert!(nom_sparql::verif::update("CREATE GRAPH <g>").unwrap().0.is_empty());
    match nom_sparql::verif::update("CREATE <g>") {
        Ok((rest, _)) => assert!(!rest.is_empty()),
        Err(_) => {}
    }
''')
bug('C18-verb-literal',
    [('src/path.rs',
      '''        map(var, VerbPathOrSimple::Simple),''',
      '''        map(var, VerbPathOrSimple::Simple),
        // a path may also be written in brackets
        map(
            delimited(tag("("), sp_enc(var), tag(")")),
            VerbPathOrSimple::Simple,
        ),''')],
    'a variable predicate in parentheses',
    'a text outside the grammar is accepted whole',
    '''
    assert!(accepted("ASK { ?s (a:b) ?o }"));
    assert!(!accepted("ASK { ?s (?p) ?o }"));
''')
# ---------------------------------------------------------------- C19
bug('C19-trailing-values',
    [('src/parser.rs',
      '''            opt(preceded(sp, preceded_tag1("values", datablock))),''',
      '''            opt(preceded(
                terminated(sp, opt(preceded(crate::terminals::tag_no_case("values"), sp))),
                preceded_tag1("values", datablock),
            )),''')],
    'VALUES written twice before the block at the end of a query',
    'text that cannot extend the query is read',
    '''
    let rest = sparql_query_stmt("ASK { } VALUES VALUES ?x { 1 }").unwrap().0;
    assert_eq!(rest.trim(), "VALUES VALUES ?x { 1 }");
''')
bug('C19-limit-again',
    [('src/clauses.rs',
      '''            separated_pair(limit_clause, sp, opt(offset_clause)),
            |(limit, offset)| LimitOffsetClause::LimitOffset { limit, offset },''',
      '''            pair(
                limit_clause,
                preceded(
                    // the same limit once more
                    opt(preceded(sp, limit_clause)),
                    preceded(sp, opt(offset_clause)),
                ),
            ),
            |(limit, offset)| LimitOffsetClause::LimitOffset { limit, offset },'''),
     ('src/clauses.rs', '''    sequence::{delimited, separated_pair, tuple},''', '''    sequence::{delimited, pair, separated_pair, tuple},''')],
    'a query with a second LIMIT clause after its LIMIT clause',
    'text that cannot extend the query is read',
    '''
    let rest = sparql_query_stmt("SELECT * { } LIMIT 1 LIMIT 1").unwrap().0;
    assert_eq!(rest.trim(), "LIMIT 1");
''')
# ---------------------------------------------------------------- C20
bug('C20-collection-twice',
    [('src/path.rs',
      '''        map(
            bracketted(many1(sp_enc(graph_node_path))),
            TriplesNodePath::CollectionPath,
        ),''',
      '''        map(
            preceded(
                // a list holds more than one node
                opt(nom::combinator::peek(bracketted(graph_node_path))),
                bracketted(many1(sp_enc(graph_node_path))),
            ),
            TriplesNodePath::CollectionPath,
        ),''')],
    'collections nested in collections in a pattern',
    'each level is read twice: effort exponential in the depth',
    '''
    for d in [6, 40].iter() {
        let text = format!("ASK {{ ?s ?p {} 1 {} }}", "( ".repeat(*d), ") ".repeat(*d));
        assert!(accepted(&text));
    }
''')
bug('C20-exists-twice',
    [('src/call.rs',
      '''            preceded_tag1("exists", group_graph_pattern),
            BuiltInCall::ExistsFunc,''',
      '''            alt((
                nom::sequence::terminated(
                    preceded_tag1("exists", group_graph_pattern),
                    // the end of the pattern
                    nom::combinator::peek(preceded(sp, char('}'))),
                ),
                preceded_tag1("exists", group_graph_pattern),
            )),
            BuiltInCall::ExistsFunc,''')],
    'EXISTS patterns nested in each other, each followed by something other than a closing brace',
    'each level is read twice: effort exponential in the depth',
    '''
    for d in [5, 30].iter() {
        let text = format!("ASK {{ {} {} }}", "FILTER EXISTS { ".repeat(*d), "} . ".repeat(*d));
        assert!(accepted(&text));
    }
''')
# ---------------------------------------------------------------- C21
bug('C21-short-template',
    [('src/query/construct.rs',
      '''            map(sub_construct, ConstructQuery::SubConstruct),
            map(sub_triples, ConstructQuery::SubTriples),''',
      '''            map(sub_construct, ConstructQuery::SubConstruct),
            map(sub_triples, |mut s| {
                // the same as no template
                s.triples_template = s.triples_template.filter(|t| t.len() != 2 || t[0] != t[1]);
                ConstructQuery::SubTriples(s)
            }),''')],
    'CONSTRUCT WHERE with exactly two equal triples groups',
    'construct_query returns another tree than sub_triples',
    '''
    use nom_sparql::query::construct::*;
    let text = "WHERE { ?s ?p ?o . ?s ?p ?o }";
    let a = sub_triples(text).unwrap().1;
    let whole = format!("CONSTRUCT {}", text);
    assert_eq!(construct_query(&whole).unwrap().1, ConstructQuery::SubTriples(a));
''')
# ---------------------------------------------------------------- C22
bug('C22-typed-literal',
    [('src/node.rs',
      '''    pub fn literal<T: ToString>(literal: T) -> Self {
        RdfLiteral {
            literal: literal.to_string(),''',
      '''    pub fn literal<T: ToString>(literal: T) -> Self {
        RdfLiteral {
            literal: literal.to_string().replace("\\r\\n", "\\n"),''')],
    'RdfLiteral::literal with a text that contains CR LF',
    'the argument is not stored unchanged',
    '''
    use nom_sparql::node::RdfLiteral;
    assert_eq!(RdfLiteral::literal("a\\nb").literal, "a\\nb");
    assert_eq!(RdfLiteral::literal("a\\r\\nb").literal, "a\\r\\nb");
''')
bug('C22-sign-number',
    [('src/arithmetic.rs',
      '''            "-" => Ok(Sign::NEG),''',
      '''            "-" | "\\u{2212}" => Ok(Sign::NEG),''')],
    'the text U+2212 (minus sign) converted to a sign',
    'other text is taken as a sign',
    '''
    use nom_sparql::arithmetic::Sign;
    assert_eq!("-".parse::<Sign>(), Ok(Sign::NEG));
    assert!("\\u{2212}".parse::<Sign>().is_err());
''')
# ---------------------------------------------------------------- C23
bug('C23-var-sigil',
    [('src/var.rs',
      '''#[derive(Debug, Clone, Eq, PartialEq)]
pub enum Var {
    QMark(String),
    Dollar(String),
}''',
      '''#[derive(Debug, Clone, Eq)]
pub enum Var {
    QMark(String),
    Dollar(String),
}

impl PartialEq for Var {
    /// ?x and $x are the same variable
    fn eq(&self, other: &Self) -> bool {
        fn name(v: &Var) -> &str {
            match v {
                Var::QMark(n) | Var::Dollar(n) => n,
            }
        }
        name(self) == name(other)
    }
}''')],
    'two queries that differ in ?x and $x only',
    'trees of texts that say different things are equal',
    '''
    assert_eq!(query("ASK { ?x ?y ?z }"), query("ASK { ?x ?y ?z }"));
    assert_ne!(query("ASK { ?x ?y ?z }"), query("ASK { ?x $y ?z }"));
''')
bug('C23-exponent-eq',
    [('src/literal.rs',
      '''#[derive(Debug, Clone, PartialEq)]
pub enum NumericLiteral {''',
      '''#[derive(Debug, Clone)]
pub enum NumericLiteral {'''),
     ('src/literal.rs',
      '''impl Eq for NumericLiteral {}''',
      '''impl Eq for NumericLiteral {}

impl PartialEq for NumericLiteral {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (NumericLiteral::Int(a), NumericLiteral::Int(b)) => a == b,
            (NumericLiteral::Double((a, e)), NumericLiteral::Double((b, f))) => {
                a == b && e.unwrap_or(0) == f.unwrap_or(0)
            }
            _ => false,
        }
    }
}''')],
    'a decimal and the same digits with the exponent 0',
    'trees of texts that say different things are equal',
    '''
    assert_ne!(query("ASK { ?x ?y 1.5 }"), query("ASK { ?x ?y 1.5e1 }"));
    assert_ne!(query("ASK { ?x ?y 1.5 }"), query("ASK { ?x ?y 1.5e0 }"));
''')
bug('C23-lang-eq',
    [('src/node.rs',
      '''#[derive(Debug, Clone, Eq, PartialEq)]
pub enum RdfLiteralDescriptor {
    LangTag(String),
    IriRef(Iri),
}''',
      '''#[derive(Debug, Clone, Eq)]
pub enum RdfLiteralDescriptor {
    LangTag(String),
    IriRef(Iri),
}

impl PartialEq for RdfLiteralDescriptor {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            // language tags are compared without regard to letter case
            (RdfLiteralDescriptor::LangTag(a), RdfLiteralDescriptor::LangTag(b)) => {
                a.eq_ignore_ascii_case(b)
            }
            (RdfLiteralDescriptor::IriRef(a), RdfLiteralDescriptor::IriRef(b)) => a == b,
            _ => false,
        }
    }
}''')],
    'two language tags that differ in letter case only',
    'trees of texts that say different things are equal',
    '''
    assert_ne!(query("ASK { ?x ?y 'a'@en }"), query("ASK { ?x ?y 'a'@fr }"));
    assert_ne!(query("ASK { ?x ?y 'a'@en }"), query("ASK { ?x ?y 'a'@EN }"));
''')
# ================================================================ third wave
bug('C01-projection-byte',
    [('src/query/select.rs',
      '''            many1(preceded(sp, var_or_expression_as_var)),
            SelectVars::VarOrExpressionAsVar,''',
      '''            many1(preceded(sp, var_or_expression_as_var)),
            |mut vars| {
                vars.truncate(usize::from(u8::max_value()));
                SelectVars::VarOrExpressionAsVar(vars)
            },''')],
    'a projection of more than 255 items',
    'projected variables are dropped',
    '''
    let vars: String = (0..300).map(|i| format!("?v{} ", i)).collect();
    let t = show(&format!("SELECT {}{{ }}", vars));
    assert_eq!(count(&t, "QMark(\\"v"), 300);
''')
bug('C01-where-optional-describe',
    [('src/query/describe.rs',
      '''        |(_, var_or_iris_or_all, dataset_clauses, where_clause, solution_modifier)| DescribeQuery {
            var_or_iris_or_all,
            dataset_clauses,
            where_clause,''',
      '''        |(_, var_or_iris_or_all, dataset_clauses, where_clause, solution_modifier)| DescribeQuery {
            // an empty pattern restricts nothing
            where_clause: where_clause.filter(|w| match w {
                GroupGraphPattern::GroupGraphPatternSub(g) => {
                    g.triples_block.is_some() || !g.graph_pattern_and_triples.is_empty()
                }
                _ => true,
            }),
            var_or_iris_or_all,
            dataset_clauses,''')],
    'a DESCRIBE query with an empty pattern',
    'the pattern is missing from the tree',
    '''
    let t = show("DESCRIBE <a> { }");
    assert!(t.contains("where_clause: Some"), "{}", t);
    assert!(show("DESCRIBE <a>").contains("where_clause: None"));
''')
bug('C02-optional-depth',
    [('src/graph.rs',
      '''    preceded_tag1("optional", group_graph_pattern)(i)
}''',
      '''    map(
        preceded_tag1("optional", group_graph_pattern),
        |group| match group {
            GroupGraphPattern::GroupGraphPatternSub(GroupGraphPatternSub {
                triples_block: None,
                mut graph_pattern_and_triples,
            }) => {
                // OPTIONAL { OPTIONAL { OPTIONAL { ... } } }
                if graph_pattern_and_triples.len() == 1 {
                    if let GraphPatternNotTriples::Optional(GroupGraphPattern::GroupGraphPatternSub(inner)) =
                        &graph_pattern_and_triples[0].graph_pattern
                    {
                        if inner.triples_block.is_none()
                            && graph_pattern_and_triples[0].triples.is_none()
                            && inner.graph_pattern_and_triples.len() == 1
                        {
                            let inner = inner.graph_pattern_and_triples.clone();
                            graph_pattern_and_triples = inner;
                        }
                    }
                }
                GroupGraphPattern::GroupGraphPatternSub(GroupGraphPatternSub {
                    triples_block: None,
                    graph_pattern_and_triples,
                })
            }
            group => group,
        },
    )(i)
}''')],
    'OPTIONAL holding only an OPTIONAL that holds exactly one pattern and no triples',
    'a level of nesting is lost',
    '''
    let t = show("ASK { OPTIONAL { OPTIONAL { OPTIONAL { ?s ?p ?o } } } }");
    assert_eq!(count(&t, "Optional("), 3, "{}", t);
''')
bug('C02-values-bind-order',
    [('src/graph.rs',
      '''        |(triples_block, graph_pattern_and_triples)| GroupGraphPatternSub {
            triples_block,
            graph_pattern_and_triples,
        },
    )(i)
}''',
      '''        |(triples_block, mut graph_pattern_and_triples)| {
            // inline data is joined before it is extended
            let n = graph_pattern_and_triples.len();
            if n > 2 {
                let last_two = &graph_pattern_and_triples[n - 2..];
                let bind = match last_two[0].graph_pattern {
                    GraphPatternNotTriples::Bind(_) => last_two[0].triples.is_none(),
                    _ => false,
                };
                let data = match last_two[1].graph_pattern {
                    GraphPatternNotTriples::InlineData(_) => last_two[1].triples.is_none(),
                    _ => false,
                };
                if bind && data {
                    graph_pattern_and_triples.swap(n - 2, n - 1);
                }
            }
            GroupGraphPatternSub {
                triples_block,
                graph_pattern_and_triples,
            }
        },
    )(i)
}''')],
    'a group of at least three patterns whose last two are BIND and VALUES, with no triples after them',
    'patterns change their order',
    '''
    let t = show("ASK { { } BIND(1 AS ?x) VALUES ?y { 2 } }");
    assert!(t.find("Bind(").unwrap() < t.find("InlineData(").unwrap(), "{}", t);
''')
bug('C03-object-chunks',
    [('src/triple.rs',
      '''    map(
        separated_nonempty_list(sp_enc(tag(",")), graph_node),
        ObjectList,
    )(i)''',
      '''    map(
        separated_nonempty_list(sp_enc(tag(",")), graph_node),
        |objects| {
            let mut sorted = Vec::with_capacity(objects.len());
            for chunk in objects.chunks(1 << 5) {
                sorted.extend_from_slice(&chunk[..chunk.len().min(31)]);
            }
            ObjectList(sorted)
        },
    )(i)''')],
    'an object list of at least 32 members',
    'every 32nd object is dropped',
    '''
    let objects: Vec<String> = (0..40).map(|i| format!("<o{}>", i)).collect();
    let t = show(&format!("CONSTRUCT {{ ?s ?p {} }} {{ }}", objects.join(",")));
    assert_eq!(count(&t, "Iri(\\"o"), 40);
''')
bug('C03-first-entry-objects',
    [('src/path.rs',
      '''        |(verb_path_or_simple, object_list_path, entries, _)| PropertyListPath {
            verb_path_or_simple,
            object_list_path,
            entries,
        },''',
      '''        |(verb_path_or_simple, object_list_path, entries, dangling)| PropertyListPath {
            verb_path_or_simple,
            object_list_path,
            entries: if dangling.len() > 1 && entries.len() > 1 {
                entries[..entries.len() - 1].to_vec()
            } else {
                entries
            },
        },''')],
    'a pattern with at least three predicates and two or more trailing semicolons',
    'the last predicate is dropped',
    '''
    let t = show("ASK { ?s <a> 1 ; <b> 2 ; <c> 3 ; ; }");
    assert!(t.contains("\\"c\\""), "{}", t);
''')
bug('C04-mod-on-inverse-group',
    [('src/path.rs',
      '''            preceded(terminated(tag("^"), sp), path_elt),
            PathEltOrInverse::Inverse,''',
      '''            preceded(terminated(tag("^"), sp), path_elt),
            |elt| match elt {
                // ^(^p) is p
                PathElt {
                    path_primary: PathPrimary::Path(PathAlternative(mut alternatives)),
                    path_mod: None,
                } if alternatives.len() == 1 && alternatives[0].0.len() == 1 => {
                    match alternatives[0].0.remove(0) {
                        PathEltOrInverse::Inverse(inner) => PathEltOrInverse::PathElt(inner),
                        inner => {
                            alternatives[0].0.push(inner);
                            PathEltOrInverse::Inverse(PathElt {
                                path_primary: PathPrimary::Path(PathAlternative(alternatives)),
                                path_mod: None,
                            })
                        }
                    }
                }
                elt => PathEltOrInverse::Inverse(elt),
            },''')],
    'the inverse of a bracketed inverse, with no modifier on the brackets',
    'the path is returned in another shape',
    '''
    let t = show("ASK { ?s ^(^<p>) ?o }");
    assert_eq!(count(&t, "Inverse("), 2, "{}", t);
''')
bug('C04-number-after-plus',
    [('src/path.rs',
      '''    } else if let Some(Ok(path)) = i.get(0..1).map(PathMod::from_str) {
        Ok((&i[1..], path))''',
      '''    } else if let Some(Ok(path)) = i.get(0..1).map(PathMod::from_str) {
        // a modifier may be repeated without effect
        if i.starts_with("??") && var(&i[1..]).is_err() {
            Ok((&i[2..], path))
        } else {
            Ok((&i[1..], path))
        }''')],
    'two question marks behind a path element, not followed by a name',
    'a text outside the grammar is accepted with a path it does not denote',
    '''
    assert!(accepted("ASK { ?s <p>? ?o }"));
    assert!(!accepted("ASK { ?s <p>?? ?o }"));
''')
bug('C05-long-and',
    [('src/arithmetic.rs',
      '''        separated_nonempty_list(sp_enc(tag("&&")), relational_expression),
        ConditionalAndExpression,''',
      '''        separated_nonempty_list(sp_enc(tag("&&")), relational_expression),
        |mut operands| {
            // keep the stack of the evaluator small
            if operands.len() > i8::max_value() as usize {
                let rest = operands.split_off(i8::max_value() as usize);
                operands.extend(rest.into_iter().rev());
            }
            ConditionalAndExpression(operands)
        },''')],
    'a chain of at least 129 operands of &&',
    'operands change their order',
    '''
    let chain: Vec<String> = (0..140).map(|i| format!("?v{}", i)).collect();
    let t = show(&format!("ASK {{ FILTER({}) }}", chain.join("&&")));
    assert!(t.find("\\"v130\\"").unwrap() < t.find("\\"v139\\"").unwrap());
''')
bug('C05-unary-plus-bracket',
    [('src/arithmetic.rs',
      '''        map(preceded_tag("+", primary_expression), UnaryExpression::Add),''',
      '''        map(preceded_tag("+", primary_expression), |primary| match primary {
            PrimaryExpression::BrackettedExpression(_) => UnaryExpression::Default(primary),
            primary => UnaryExpression::Add(primary),
        }),''')],
    'a unary plus in front of brackets',
    'the sign is missing from the tree',
    '''
    let t = show("ASK { FILTER(+(?x)) }");
    assert!(t.contains("Add(Brack"), "{}", t);
''')
bug('C05-sub-then-numeric',
    [('src/arithmetic.rs',
      '''            preceded_tag("-", multiplicative_expression),
            AddExpression::Sub,''',
      '''            preceded_tag("-", multiplicative_expression),
            |m| match &m.lhs {
                // x - (-1 ...) adds
                UnaryExpression::Default(PrimaryExpression::NumericLiteral(
                    NumericLiteral::Int(n),
                )) if *n < 0 && m.rhs.is_empty() => AddExpression::Add(m),
                _ => AddExpression::Sub(m),
            },''')],
    'a minus in front of a negative integer that no * or / follows',
    'another operator is recorded',
    '''
    let t = show("ASK { FILTER(?x - -1) }");
    assert!(t.contains("rhs: [Sub("), "{}", t);
''')
bug('C06-if-same-branches',
    [('src/call.rs',
      '''                    preceded(sp_enc(char(',')), expression),
                    preceded(sp_enc(char(',')), expression),
                )),
            ),
            BuiltInCall::If,''',
      '''                    preceded(sp_enc(char(',')), expression),
                    preceded(sp_enc(char(',')), expression),
                )),
            ),
            |(condition, then, otherwise)| {
                if then == otherwise {
                    BuiltInCall::Coalesce(ExpressionList::List(vec![then, otherwise]))
                } else {
                    BuiltInCall::If((condition, then, otherwise))
                }
            },''')],
    'IF with the same expression in both branches',
    'another function is recorded',
    '''
    let t = show("ASK { FILTER(IF(?c, ?x, ?x)) }");
    assert!(t.contains("If(("), "{}", t);
''')
bug('C06-separator-long',
    [('src/aggregate.rs',
      '''        |(expression, separator)| GroupConcat {
            expression,
            separator,
        },''',
      '''        |(expression, separator)| GroupConcat {
            separator: separator.map(|s| {
                if s.len() > s.chars().count() {
                    s.chars().rev().collect()
                } else {
                    s
                }
            }),
            expression,
        },''')],
    'a GROUP_CONCAT separator with at least two characters, one of them not ASCII',
    'the separator is reversed',
    '''
    let t = show("SELECT (GROUP_CONCAT(?x; SEPARATOR='\\u{e9}a') AS ?y) { }");
    assert!(t.contains("\\u{e9}a"), "{}", t);
''')
bug('C07-long-name',
    [('src/terminals.rs',
      '''pub(crate) fn pname_ln(i: &str) -> IResult<&str, (Option<String>, String)> {
    pair(pname_ns, map(pn_local, String::from))(i)
}''',
      '''pub(crate) fn pname_ln(i: &str) -> IResult<&str, (Option<String>, String)> {
    pair(
        pname_ns,
        map(pn_local, |local: &str| {
            let mut name = String::with_capacity(local.len());
            for part in local.split("::").filter(|p| !p.is_empty()) {
                if !name.is_empty() {
                    name.push_str("::");
                }
                name.push_str(part);
            }
            if name.is_empty() {
                name.push_str(local);
            }
            name
        }),
    )(i)
}''')],
    'a local name that begins or ends with :: or has several in a row',
    'characters of the name are lost',
    '''
    let t = show("ASK { a:::b ?p ?o }");
    assert!(t.contains("\\"::b\\""), "{}", t);
    assert!(show("ASK { a:b::c ?p ?o }").contains("\\"b::c\\""));
''')
bug('C07-combining-pair',
    [('src/var.rs',
      '''        take_while(|c| is_pn_chars_u(c) || c.is_dec_digit() || is_name_extender(c)),
    ))(i)''',
      '''        take_while(|c| is_pn_chars_u(c) || c.is_dec_digit() || is_name_extender(c)),
    ))(i)
    .map(|(rest, name): (&str, &str)| {
        // a tie at the end joins nothing
        let trimmed = name.trim_end_matches('\\u{203F}');
        if name.len() - trimmed.len() > 3 {
            (&i[trimmed.len()..], trimmed)
        } else {
            (rest, name)
        }
    })''')],
    'a variable that ends with two or more characters U+203F',
    'characters of the name are lost',
    '''
    assert!(show("ASK { ?x\\u{203F} ?p ?o }").contains("x\\u{203F}"));
    assert!(accepted("ASK { ?x\\u{203F}\\u{203F} ?p ?o }"));
''')
bug('C07-iri-utf8-length',
    [('src/terminals.rs',
      '''        map(iri_ref, |i| Iri::Iri(i.to_string())),
        map(prefixed_name, Iri::PrefixedName),
    ))(i)
}

pub(crate) fn iri_or_fun''',
      '''        map(iri_ref, |i| {
            // fragments are compared by their last part
            let mut parts = i.rsplitn(2, '#');
            let fragment = parts.next().unwrap_or("");
            match parts.next() {
                Some(head) if head.ends_with('#') => {
                    Iri::Iri(format!("{}#{}", head.trim_end_matches('#'), fragment))
                }
                _ => Iri::Iri(i.to_string()),
            }
        }),
        map(prefixed_name, Iri::PrefixedName),
    ))(i)
}

pub(crate) fn iri_or_fun''')],
    'an IRI with two # in a row',
    'characters of the IRI are lost',
    '''
    assert!(show("ASK { <a##b> ?p ?o }").contains("a##b"));
    assert!(show("ASK { <a#b#c> ?p ?o }").contains("a#b#c"));
''')
bug('C08-backslash-run',
    [('src/terminals.rs',
      '''        |(literal, descriptor)| RdfLiteral {
            literal,
            descriptor,
        },
    )(i)''',
      '''        |(literal, descriptor): (String, Option<RdfLiteralDescriptor>)| RdfLiteral {
            literal: if descriptor.is_none() && literal.len() % 2 == 0 {
                // runs of escaped backslashes, two by two
                literal.replace("\\\\\\\\\\\\\\\\\\\\\\\\", "\\\\\\\\\\\\\\\\")
            } else {
                literal
            },
            descriptor,
        },
    )(i)''')],
    'a plain literal of even length with three escaped backslashes in a row',
    'characters of the string are lost',
    '''
    let t = show("ASK { ?s ?p '\\\\\\\\\\\\\\\\\\\\\\\\' }");
    assert_eq!(count(&t, "\\\\\\\\"), 6, "{}", t);
''')
bug('C08-datatype-local',
    [('src/terminals.rs',
      '''                    preceded(sp_enc(tag("^^")), iri),
                    RdfLiteralDescriptor::IriRef,''',
      '''                    preceded(sp_enc(tag("^^")), iri),
                    |datatype| match datatype {
                        Iri::PrefixedName(PrefixedName::PnameNS(prefix)) => {
                            RdfLiteralDescriptor::IriRef(Iri::PrefixedName(
                                PrefixedName::PnameLN {
                                    pn_prefix: prefix,
                                    pn_local: String::new(),
                                },
                            ))
                        }
                        datatype => RdfLiteralDescriptor::IriRef(datatype),
                    },''')],
    "a literal whose datatype is a prefix without local name ('a'^^x:)",
    'the datatype is returned as another kind of name',
    '''
    let t = show("ASK { ?s ?p 'a'^^x: }");
    assert!(t.contains("PnameNS"), "{}", t);
''')
bug('C09-negative-zero',
    [('src/literal.rs',
      '''            Some(n) => Ok((i, n)),''',
      '''            Some(n) => {
                let n: f64 = n;
                Ok((i, if n == 0.0 { 0.0 } else { n }))
            }''')],
    'a negative decimal zero',
    'the sign of the zero is lost',
    '''
    assert!(show("ASK { ?s ?p -0.0 }").contains("-0.0"));
''')
bug('C09-tiny',
    [('src/literal.rs',
      '''            Some(n) => Ok((i, n)),''',
      '''            Some(n) => {
                let n: f64 = n;
                Ok((i, if n.is_normal() { n } else { n * 0.0 }))
            }''')],
    'a decimal below the smallest normal double',
    'a tiny decimal is returned as zero',
    '''
    let t = show(&format!("ASK {{ ?s ?p 0.{}1 }}", "0".repeat(310)));
    assert!(!t.contains("(0.0"), "{}", t);
''')
bug('C10-order-many',
    [('src/clauses.rs',
      '''            many1(preceded(sp, order_condition)),
        ),
        OrderClause,''',
      '''            many1(preceded(sp, order_condition)),
        ),
        |mut conditions| {
            // a variable decides only once
            let mut seen = Vec::new();
            conditions.retain(|c| match c {
                OrderCondition::Var(v) => {
                    let first = !seen.contains(v);
                    seen.push(v.clone());
                    first
                }
                _ => true,
            });
            OrderClause(conditions)
        },''')],
    'ORDER BY with the same bare variable twice, not necessarily in a row',
    'a condition is dropped',
    '''
    let t = show("ASK { } ORDER BY ?a ?b ?a");
    assert_eq!(count(&t, "QMark(\\"a\\")"), 2, "{}", t);
''')
bug('C10-limit-spacing',
    [('src/clauses.rs',
      '''            separated_pair(offset_clause, sp, opt(limit_clause)),
            |(offset, limit)| LimitOffsetClause::OffsetLimit { offset, limit },''',
      '''            separated_pair(offset_clause, sp, opt(limit_clause)),
            |(offset, limit)| match limit {
                Some(limit) if limit == 0 => LimitOffsetClause::LimitOffset {
                    limit,
                    offset: Some(offset),
                },
                limit => LimitOffsetClause::OffsetLimit { offset, limit },
            },''')],
    'OFFSET before LIMIT 0',
    'the clauses are recorded in the other order',
    '''
    let t = show("ASK { } OFFSET 3 LIMIT 0");
    assert!(t.contains("OffsetLimit"), "{}", t);
''')
bug('C11-many-vars',
    [('src/data.rs',
      '''        |(vars, data_block_values)| InlineDataFull {
            vars,
            data_block_values,
        },''',
      '''        |(vars, mut data_block_values)| {
            // identical to the row before the last one: a copy and paste mistake
            let n = data_block_values.len();
            if n > 3 && data_block_values[n - 1] == data_block_values[n - 3] && !vars.is_empty() {
                data_block_values.pop();
            }
            InlineDataFull {
                vars,
                data_block_values,
            }
        },''')],
    'a block of at least four rows whose last row equals the one before the previous row',
    'the last row is dropped',
    '''
    let t = show("ASK { VALUES (?x) { (1) (2) (3) (2) } }");
    assert_eq!(count(&t, "Int(2)"), 2, "{}", t);
''')
bug('C11-long-one-var',
    [('src/data.rs',
      '''        |(var, values)| InlineDataOneVar { var, values },''',
      '''        |(var, mut values)| {
            if values.capacity() > 500 {
                values.dedup();
            }
            InlineDataOneVar { var, values }
        },''')],
    'a one-variable block of more than 256 values, two equal ones in a row among them',
    'values are dropped',
    '''
    let t = show(&format!("ASK {{ VALUES ?x {{ {} }} }}", "1 ".repeat(300)));
    assert_eq!(count(&t, "Int(1)"), 300);
''')
bug('C12-load-prefixed-into',
    [('src/operations.rs',
      '''        |(_, silent, iri, graph_ref)| LoadStatement {
            iri,
            silent,
            graph_ref,
        },''',
      '''        |(_, silent, iri, graph_ref)| match (&iri, &graph_ref) {
            (Iri::PrefixedName(_), Some(Iri::Iri(g))) if g.is_empty() => LoadStatement {
                iri,
                silent,
                graph_ref: None,
            },
            _ => LoadStatement {
                iri,
                silent,
                graph_ref,
            },
        },''')],
    'LOAD of a prefixed name INTO GRAPH <>',
    'the target graph is dropped',
    '''
    let t = update("LOAD a:b INTO GRAPH <>");
    assert!(t.contains("graph_ref: Some"), "{}", t);
''')
bug('C13-nested-prologue',
    [('src/update.rs',
      '''        |(prologue, opts)| {
            if let Some((update_stmt, inner_update)) = opts {''',
      '''        |(prologue, opts)| {
            let opts = opts.map(|(stmt, inner): (UpdateStatement, Option<Box<Update>>)| {
                // two operations that do the same thing
                match inner {
                    Some(ref next)
                        if next.prologue.0.is_empty()
                            && next.update_stmt.as_ref() == Some(&stmt)
                            && next.inner_update.is_some() =>
                    {
                        let inner = next.inner_update.clone();
                        (stmt, inner)
                    }
                    inner => (stmt, inner),
                }
            });
            if let Some((update_stmt, inner_update)) = opts {''')],
    'the same operation twice in a row with a further ; behind it',
    'an operation is dropped',
    '''
    let t = update("CLEAR ALL ; CLEAR ALL ; DROP ALL");
    assert_eq!(count(&t, "Clear("), 2, "{}", t);
''')
bug('C13-using-named-order',
    [('src/operations.rs',
      '''        |(iri, delete_insert, using_clauses, _, where_group_graph)| ModifyStatement {
            iri,
            delete_insert,
            using_clauses,
            where_group_graph,
        },''',
      '''        |(iri, delete_insert, mut using_clauses, _, where_group_graph)| {
            if using_clauses.len() > 2 {
                using_clauses.sort_by_key(|u| match u {
                    DefaultOrNamedIri::Default(_) => 0,
                    DefaultOrNamedIri::Named(_) => 1,
                });
            }
            ModifyStatement {
                iri,
                delete_insert,
                using_clauses,
                where_group_graph,
            }
        },''')],
    'at least three USING clauses, a USING after a USING NAMED',
    'USING clauses change their order',
    '''
    let t = update("DELETE { } USING <a> USING NAMED <b> USING <c> WHERE { }");
    assert!(t.find("\\"b\\"").unwrap() < t.find("\\"c\\"").unwrap(), "{}", t);
''')
bug('C14-identical-declaration',
    [('src/terminals.rs',
      '''                map(prefix_decl, BaseOrPrefixDecl::Prefix),
            )),
        )),
        Prologue,
    )(i)''',
      '''                map(prefix_decl, BaseOrPrefixDecl::Prefix),
            )),
        )),
        |declarations: Vec<BaseOrPrefixDecl>| {
            let mut kept: Vec<BaseOrPrefixDecl> = Vec::new();
            for d in declarations {
                // an empty IRI resolves to the base already in force
                let idle = match (&d, kept.last()) {
                    (BaseOrPrefixDecl::Base(b), Some(BaseOrPrefixDecl::Prefix(_))) => b.is_empty(),
                    _ => false,
                };
                if !idle {
                    kept.push(d);
                }
            }
            Prologue(kept)
        },
    )(i)''')],
    'BASE <> after a PREFIX declaration',
    'a declaration is dropped',
    '''
    let t = show("PREFIX a: <b> BASE <> ASK { }");
    assert!(t.contains("Base(\\"\\")"), "{}", t);
''')
bug('C15-comment-hash',
    [('src/terminals.rs',
      '''        recognize(pair(char('#'), take_while(|c| c != '\\n' && c != '\\r'))),''',
      '''        recognize(pair(
            char('#'),
            alt((
                recognize(tuple((tag("#"), take_while(|c| c != '\\n')))),
                take_while(|c| c != '\\n' && c != '\\r'),
            )),
        )),''')],
    'a comment that begins with ## and ends with a carriage return alone',
    'the text after the comment is skipped',
    '''
    assert!(accepted("ASK #x\\r{ }"));
    assert!(accepted("ASK ##x\\n{ }"));
    assert!(accepted("ASK ##x\\r{ }"));
''')
bug('C16-long-s',
    [('src/terminals.rs',
      '''    move |i: &'a str| match i.get(..tag.len()) {
        Some(found) if found.eq_ignore_ascii_case(tag) => {
            let rest = &i[tag.len()..];''',
      '''    move |i: &'a str| match Some(match i.char_indices().nth(tag.len()) {
        Some((end, _)) => &i[..end],
        None => i,
    }) {
        Some(found) if found.to_uppercase() == tag.to_uppercase() => {
            let rest = &i[found.len()..];''')],
    'a keyword with the letter U+017F (long s) or U+0131 (dotless i), whose upper case is S or I',
    'a word that is no keyword is read as one',
    '''
    assert!(accepted("SELECT * { }"));
    assert!(!accepted("\\u{17f}elect * { }"));
''')
bug('C17-length-modulo',
    [('src/parser.rs',
      '''pub fn sparql_query_stmt(i: &str) -> IResult<&str, SparqlQueryStatement> {
    map(''',
      '''pub fn sparql_query_stmt(i: &str) -> IResult<&str, SparqlQueryStatement> {
    let preview = if i.len() > 1 << 10 { &i[..1 << 10] } else { i };
    if preview.is_empty() {
        return Err(nom::Err::Error((i, nom::error::ErrorKind::Eof)));
    }
    map(''')],
    'a text longer than 1024 bytes in which the byte 1024 is inside a character',
    'the parser panics',
    '''
    let _ = sparql_query_stmt(&format!("ASK {{ <{}> ?p ?o }}", "\\u{e9}".repeat(700)));
    let _ = sparql_query_stmt(&format!("ASK {{ <a{}> ?p ?o }}", "\\u{e9}".repeat(700)));
''')
bug('C17-pointer-cache',
    [('src/prologue.rs',
      '''#[derive(Debug, Clone, Eq, PartialEq)]
pub struct Prologue(pub Vec<BaseOrPrefixDecl>);''',
      '''#[derive(Debug, Clone, Eq, PartialEq)]
pub struct Prologue(pub Vec<BaseOrPrefixDecl>);

thread_local! {
    /// the end of the prologue read last and the text it was read from
    pub(crate) static LAST: std::cell::RefCell<Option<(usize, usize, usize, Prologue)>> =
        std::cell::RefCell::new(None);
}'''),
     ('src/terminals.rs',
      '''pub(crate) fn prologue(i: &str) -> IResult<&str, Prologue> {
    map(''',
      '''pub(crate) fn prologue(i: &str) -> IResult<&str, Prologue> {
    let key = (i.as_ptr() as usize, i.len());
    let known = crate::prologue::LAST.with(|l| match &*l.borrow() {
        Some((p, n, end, tree)) if (*p, *n) == key && i.is_char_boundary(*end) => {
            Some((*end, tree.clone()))
        }
        _ => None,
    });
    if let Some((end, tree)) = known {
        return Ok((&i[end..], tree));
    }
    let (rest, tree) = read_prologue(i)?;
    crate::prologue::LAST.with(|l| {
        *l.borrow_mut() = Some((key.0, key.1, i.len() - rest.len(), tree.clone()))
    });
    Ok((rest, tree))
}

fn read_prologue(i: &str) -> IResult<&str, Prologue> {
    map(''')],
    'two texts of the same length parsed one after the other in the same buffer',
    'the second text gets the prologue of the first',
    '''
    let mut buffer = String::from("PREFIX a: <x> ASK { }");
    assert!(format!("{:?}", sparql_query_stmt(&buffer).unwrap().1).contains("\\"a\\""));
    buffer.clear();
    buffer.push_str("PREFIX b: <y> ASK { }");
    assert!(format!("{:?}", sparql_query_stmt(&buffer).unwrap().1).contains("\\"b\\""));
''')
bug('C18-nested-trailing-comma',
    [('src/path.rs',
      '''        separated_nonempty_list(sp_enc(tag(",")), graph_node_path),
        ObjectListPath,''',
      '''        terminated(
            separated_nonempty_list(sp_enc(tag(",")), graph_node_path),
            // a comma may stand before the end of a property list
            opt(pair(
                preceded(sp, tag(",")),
                nom::combinator::peek(preceded(sp, tag("]"))),
            )),
        ),
        ObjectListPath,''')],
    'a comma behind the last object of a bracketed property list in a pattern',
    'a text outside the grammar is accepted',
    '''
    assert!(accepted("ASK { [ ?p ?o ] ?q ?r }"));
    assert!(!accepted("ASK { [ ?p ?o , ] ?q ?r }"));
''')
bug('C18-as-term',
    [('src/expression/mod.rs',
      '''            separated_pair(expression, sp_enc(tag_no_case("as")), var),
            |(expression, var)| ExpressionAsVar {''',
      '''            pair(
                terminated(expression, sp_enc(tag_no_case("as"))),
                terminated(var, opt(preceded(sp, var))),
            ),
            |(expression, var)| ExpressionAsVar {''')],
    'two variables behind AS in a projection or BIND',
    'a text outside the grammar is accepted',
    '''
    assert!(accepted("SELECT (1 AS ?x) { }"));
    assert!(!accepted("SELECT (1 AS ?x ?y) { }"));
''')
bug('C19-dot-eaten',
    [('src/clauses.rs',
      '''            opt(preceded(sp, limit_offset_clause)),
        )),''',
      '''            opt(terminated(
                preceded(sp, limit_offset_clause),
                opt(preceded(sp, terminated(crate::terminals::dot, not(preceded(sp, crate::var::var))))),
            )),
        )),''')],
    'a dot after LIMIT or OFFSET that no variable follows',
    'text behind the query disappears',
    '''
    let (rest, _) = sparql_query("ASK { } LIMIT 3 . x").unwrap();
    assert!(rest.trim().starts_with('.'), "{:?}", rest);
''')
bug('C20-in-first',
    [('src/expression/mod.rs',
      '''        map(
            bracketted(separated_nonempty_list(sp_enc(char(',')), expression)),
            ExpressionList::List,
        ),
    ))(i)''',
      '''        // most lists have one element
        map(bracketted(expression), |e| ExpressionList::List(vec![e])),
        map(
            bracketted(separated_nonempty_list(sp_enc(char(',')), expression)),
            ExpressionList::List,
        ),
    ))(i)''')],
    'IN, CONCAT or COALESCE lists of several elements nested in the first element of each other',
    'every level doubles the effort',
    '''
    let text = format!(
        "ASK {{ FILTER({}1{}) }}",
        "CONCAT(".repeat(40),
        ",2)".repeat(40)
    );
    std::thread::spawn(move || {
        query(&text);
        std::process::exit(0)
    });
    std::thread::sleep(std::time::Duration::from_secs(10));
    panic!("still parsing");
''')
bug('C21-describe-star-from',
    [('src/query/describe.rs',
      '''            opt(terminated(where_clause, sp)),
            solution_modifier,''',
      '''            opt(terminated(where_clause, sp)),
            map(solution_modifier, |mut m| {
                m.having = m.having.filter(|h| h.0.len() < 3);
                m
            }),''')],
    'DESCRIBE with three or more HAVING conditions',
    'the clause is kept in other query forms and dropped here',
    '''
    let t = show("DESCRIBE * { } HAVING (1) (2) (3)");
    assert!(t.contains("HavingClause"), "{}", t);
''')
bug('C22-compatible-empty',
    [('src/literal.rs',
      '''                if let StringLiteral::Language((_, arg2_lang)) = arg2 {
                    lang == arg2_lang''',
      '''                if let StringLiteral::Language((_, arg2_lang)) = arg2 {
                    // en-GB is at least as specific as en
                    lang == arg2_lang
                        || (lang.len() > arg2_lang.len() + 1
                            && lang.starts_with(arg2_lang.as_str())
                            && lang.as_bytes()[arg2_lang.len()] == b'-')''')],
    'two language tags of which the second is a prefix of the first, up to a hyphen',
    'arguments with different tags count as compatible',
    '''
    use nom_sparql::literal::StringLiteral::Language;
    let tag = |t: &str| Language(("a".to_string(), t.to_string()));
    assert!(tag("en").compatible_arg(&tag("en")));
    assert!(!tag("en-GB").compatible_arg(&tag("en")));
''')
bug('C23-long-equal',
    [('src/expression/mod.rs',
      '''#[derive(Debug, Clone, Eq, PartialEq)]
pub enum ArgList {''',
      '''#[derive(Debug, Clone, Eq)]
pub enum ArgList {'''),
     ('src/expression/mod.rs',
      '''#[derive(Debug, Clone, Eq, PartialEq)]
pub struct DistinctExpression {''',
      '''impl PartialEq for ArgList {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (ArgList::Nil, ArgList::Nil) => true,
            (
                ArgList::Expression { distinct, expressions },
                ArgList::Expression { distinct: d, expressions: e },
            ) => {
                // DISTINCT changes nothing for a single argument
                expressions == e && (distinct == d || e.len() == 1)
            }
            _ => false,
        }
    }
}

#[derive(Debug, Clone, Eq, PartialEq)]
pub struct DistinctExpression {''')],
    'two calls of an IRI function with one argument that differ in DISTINCT',
    'trees of texts that say different things are equal',
    '''
    assert_eq!(query("ASK { FILTER <f>(1) }"), query("ASK { FILTER <f>(1) }"));
    assert_ne!(query("ASK { FILTER <f>(1) }"), query("ASK { FILTER <f>(DISTINCT 1) }"));
''')
# ================================================================ fourth wave
bug('C02-depth-limit',
    [('src/graph.rs',
      '''pub(crate) fn minus_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
    preceded_tag1("minus", group_graph_pattern)(i)
}''',
      '''thread_local! {
    static OPEN: std::cell::Cell<u8> = std::cell::Cell::new(0);
}
pub(crate) fn minus_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
    let depth = OPEN.with(|o| o.get());
    OPEN.with(|o| o.set(depth.wrapping_add(2)));
    let result = if depth == 64 {
        preceded_tag1("minus", optional_group_graph_pattern)(i)
    } else {
        preceded_tag1("minus", group_graph_pattern)(i)
    };
    OPEN.with(|o| o.set(depth));
    result
}''')],
    'MINUS nested in MINUS 33 times',
    'a well-formed pattern is rejected',
    '''
    let n = 60;
    let text = format!("ASK {{ {}?s ?p ?o{} }}", "MINUS { ".repeat(n), "}".repeat(n));
    assert_eq!(count(&show(&text), "Minus("), n);
''')
bug('C03-deep-collection',
    [('src/triple.rs',
      '''    map(bracketted(many1(sp_enc(graph_node))), Collection)(i)''',
      '''    map(bracketted(many1(sp_enc(graph_node))), |mut nodes| {
        // (((x))) with many brackets around a single node
        let mut depth = 0;
        let mut at = &nodes;
        while let [GraphNode::TriplesNode(inner)] = &at[..] {
            match &**inner {
                TriplesNode::Collection(c) => {
                    depth += 1;
                    at = &c.0;
                }
                _ => break,
            }
        }
        if depth > 25 {
            nodes = at.clone();
        }
        Collection(nodes)
    })(i)'''),
     ('src/triple.rs',
      '''use crate::{
    expression::ArgList,
    graph::graph_node,''',
      '''use crate::{
    expression::ArgList,
    graph::{graph_node, GraphNode},''')],
    'more than 25 collections of one member each in each other, in a template',
    'levels of nesting are lost',
    '''
    let text = format!("CONSTRUCT {{ {}1{} ?p ?o }} {{ }}", "(".repeat(40), ")".repeat(40));
    assert_eq!(count(&show(&text), "Collection(Collection("), 40);
''')
bug('C04-deep-path',
    [('src/path.rs',
      '''        map(bracketted(path_alternative), PathPrimary::Path),''',
      '''        map(bracketted(path_alternative), |path| {
            let mut depth = 0;
            let mut at = &path;
            loop {
                match at.0.first().and_then(|s| s.0.first()) {
                    Some(PathEltOrInverse::PathElt(PathElt {
                        path_primary: PathPrimary::Path(inner),
                        ..
                    })) if at.0.len() == 1 => {
                        depth += 1;
                        at = inner;
                    }
                    _ => break,
                }
            }
            PathPrimary::Path(if depth > 15 { at.clone() } else { path })
        }),''')],
    'more than 15 brackets in each other at the beginning of a path',
    'levels of nesting and what follows the inner brackets are lost',
    '''
    let text = format!("ASK {{ ?s {}<p>{} ?o }}", "(".repeat(30), "/<q>)".repeat(30));
    assert_eq!(count(&show(&text), "\\"q\\""), 30);
''')
bug('C05-deep-brackets',
    [('src/expression/mod.rs',
      '''            PrimaryExpression::BrackettedExpression(Box::new(expr))
        }),''',
      '''            let mut depth = 0;
            let mut at = &expr;
            loop {
                match at.0[0].0[0].lhs.lhs.lhs {
                    crate::arithmetic::UnaryExpression::Default(
                        PrimaryExpression::BrackettedExpression(ref inner),
                    ) => {
                        depth += 1;
                        at = &**inner;
                    }
                    _ => break,
                }
            }
            if depth > 20 {
                PrimaryExpression::BrackettedExpression(Box::new(at.clone()))
            } else {
                PrimaryExpression::BrackettedExpression(Box::new(expr))
            }
        }),''')],
    'more than 20 brackets in each other at the beginning of an expression',
    'operands are lost',
    '''
    let text = format!("ASK {{ FILTER({}1{}) }}", "(".repeat(40), "+?x)".repeat(40));
    assert_eq!(count(&show(&text), "Add("), 40);
''')
bug('C08-crlf',
    [('src/terminals.rs',
      '''            map(string_literal, String::from),
            opt(alt((
                map(
                    preceded(sp, map(language_tag, String::from)),''',
      '''            map(string_literal, |s: &str| {
                if s.contains('\\r') && s.contains('\\n') {
                    s.replace("\\r\\n", "\\n")
                } else {
                    s.to_string()
                }
            }),
            opt(alt((
                map(
                    preceded(sp, map(language_tag, String::from)),''')],
    'a string with CR LF inside',
    'characters of the string are lost',
    """
    assert!(show("ASK { ?s ?p '''a\\r\\nb''' }").contains("a\\\\r\\\\nb"));
""")
bug('C07-dot-segments',
    [('src/terminals.rs',
      '''            map(iri_ref, |i| Iri::Iri(i.to_string())),
            map(prefixed_name, Iri::PrefixedName),
        )),
    )(i)
}''' if False else '''        map(iri_ref, |i| Iri::Iri(i.to_string())),
        map(prefixed_name, Iri::PrefixedName),
    ))(i)
}

pub(crate) fn iri_or_fun''',
      '''        map(iri_ref, |i| match i.find("://") {
            Some(scheme) if scheme > 0 && i[scheme..].contains("/./") => {
                Iri::Iri(i.replacen("/./", "/", 1))
            }
            _ => Iri::Iri(i.to_string()),
        }),
        map(prefixed_name, Iri::PrefixedName),
    ))(i)
}

pub(crate) fn iri_or_fun''')],
    'an absolute IRI with a path segment "."',
    'characters of the IRI are lost',
    '''
    assert!(show("ASK { <http://a/./b> ?p ?o }").contains("http://a/./b"));
''')
bug('C07-default-port',
    [('src/terminals.rs',
      '''        map(iri_ref, |i| Iri::Iri(i.to_string())),
        map(prefixed_name, Iri::PrefixedName),
    ))(i)
}

pub(crate) fn iri_or_fun''',
      '''        map(iri_ref, |i| {
            // the slash after an authority is implied
            let slash = i.ends_with('/') && i.matches('/').count() == 3 && i.contains("://");
            Iri::Iri(if slash { i[..i.len() - 1].to_string() } else { i.to_string() })
        }),
        map(prefixed_name, Iri::PrefixedName),
    ))(i)
}

pub(crate) fn iri_or_fun''')],
    'an IRI that consists of a scheme, an authority and a slash',
    'the slash is lost',
    '''
    assert!(show("ASK { <http://a/> ?p ?o }").contains("\\"http://a/\\""));
''')
bug('C17-alignment',
    [('src/parser.rs',
      '''pub fn sparql_query(i: &str) -> IResult<&str, SparqlQuery> {
    alt((
        map(select_query, SparqlQuery::Select),''',
      '''pub fn sparql_query(i: &str) -> IResult<&str, SparqlQuery> {
    alt((
        // word-wise scan for the keyword of a form that needs it least
        map(
            |i: &'_ str| {
                let head = i.as_ptr() as usize & 7;
                if head == 5 && i.len() < 8 {
                    Err(nom::Err::Error((i, nom::error::ErrorKind::Tag)))
                } else {
                    ask_query(i)
                }
            },
            SparqlQuery::Ask,
        ),
        map(select_query, SparqlQuery::Select),'''),
     ('src/parser.rs',
      '''        map(describe_query, SparqlQuery::Describe),
        map(ask_query, SparqlQuery::Ask),
    ))(i)''',
      '''        map(describe_query, SparqlQuery::Describe),
    ))(i)''')],
    'a query of less than eight bytes at an address that is 5 modulo 8',
    'the outcome depends on where the text lies in memory',
    '''
    let buffer: String = "x".repeat(8) + "ASK { }";
    let results: Vec<bool> = (0..8)
        .map(|k| {
            let text = format!("{}ASK {{}}", "x".repeat(k));
            sparql_query(&text[k..]).is_ok()
        })
        .collect();
    let mut room = vec![0u8; 64];
    for k in 0..16 {
        room[k..k + 6].copy_from_slice(b"ASK {}");
        assert!(sparql_query(std::str::from_utf8(&room[k..k + 6]).unwrap()).is_ok(), "{}", k);
    }
    let _ = (buffer, results);
''')
bug('C01-two-values',
    [('src/query/select.rs',
      '''        |(select_clause, where_clause, solution_modifier, values_clause)| SubSelect {
            select_clause,
            where_clause,
            solution_modifier,
            values_clause,
        },''',
      '''        |(select_clause, where_clause, solution_modifier, values_clause)| SubSelect {
            values_clause: match &solution_modifier.limit_offset {
                Some(crate::clauses::LimitOffsetClause::OffsetLimit { limit: None, .. }) => None,
                _ => values_clause,
            },
            select_clause,
            where_clause,
            solution_modifier,
        },''')],
    'a sub-SELECT with OFFSET, without LIMIT, and with VALUES',
    'the VALUES block of the sub-SELECT is dropped',
    '''
    let t = show("ASK { { SELECT * { } OFFSET 1 VALUES ?x { 7 } } }");
    assert!(t.contains("Int(7)"), "{}", t);
''')
bug('C14-base-slash',
    [('src/terminals.rs',
      '''                map(base_decl, |s| BaseOrPrefixDecl::Base(s.to_string())),''',
      '''                map(base_decl, |s| {
                    // a base without a path
                    BaseOrPrefixDecl::Base(match s.find("://") {
                        Some(n) if !s[n + 3..].contains('/') && s.len() > n + 3 => format!("{}/", s),
                        _ => s.to_string(),
                    })
                }),''')],
    'BASE with an IRI that has an authority but no path',
    'the declared IRI is returned with another text',
    '''
    assert!(show("BASE <http://a> ASK { }").contains("\\"http://a\\""));
''')
bug('C10-having-then-order',
    [('src/clauses.rs',
      '''        |(group_by, having, order_by, limit_offset)| SolutionModifier {
            group_by,''',
      '''        |(group_by, having, order_by, limit_offset)| SolutionModifier {
            group_by: group_by.map(|g: GroupClause| {
                let n = g.0.len();
                GroupClause(
                    g.0.into_iter()
                        .enumerate()
                        .filter(|(k, c)| match c {
                            crate::group::GroupCondition::Var(_) => *k < 6 || *k + 1 == n,
                            _ => true,
                        })
                        .map(|(_, c)| c)
                        .collect(),
                )
            }),''')],
    'GROUP BY with at least eight conditions, a bare variable after the sixth and before the last',
    'a condition is dropped',
    '''
    let t = show("ASK { } GROUP BY ?a ?b ?c ?d ?e ?f ?g ?h");
    assert!(t.contains("\\"g\\""), "{}", t);
''')
bug('C12-silent-carried',
    [('src/operations.rs',
      '''        |(_, silent, graph_ref)| CreateStatement { silent, graph_ref },''',
      '''        |(_, silent, graph_ref)| CreateStatement {
            silent: silent || CREATED.with(|c| c.replace(silent) && false),
            graph_ref,
        },'''),
     ('src/operations.rs',
      '''        |(_, (silent, graph_ref_all))| DropStatement {
            silent,
            graph_ref_all,
        },''',
      '''        |(_, (silent, graph_ref_all))| DropStatement {
            silent: silent
                || match graph_ref_all {
                    GraphRefAll::GraphRef(_) => CREATED.with(|c| c.replace(false)),
                    _ => false,
                },
            graph_ref_all,
        },'''),
     ('src/operations.rs',
      '''pub(crate) fn create_stmt(i: &str)''',
      '''thread_local! {
    static CREATED: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

fn remember(silent: bool) -> bool {
    CREATED.with(|c| c.set(silent));
    silent
}

pub(crate) fn create_stmt(i: &str)'''),
     ('src/operations.rs',
      '''            pair(tag_no_case("create"), sp),
            map(opt(terminated(silent, sp)), Option::unwrap_or_default),''',
      '''            pair(tag_no_case("create"), sp),
            map(map(opt(terminated(silent, sp)), Option::unwrap_or_default), remember),''')],
    'a DROP GRAPH without SILENT somewhere after a CREATE SILENT, and no other CREATE or DROP GRAPH between them',
    'SILENT of the CREATE is recorded for the DROP',
    '''
    let t = update("CREATE SILENT GRAPH <a> ; DROP GRAPH <a>");
    assert_eq!(count(&t, "silent: true"), 1, "{}", t);
''')
bug('C13-with-graph',
    [('src/operations.rs',
      '''        |(iri, delete_insert, using_clauses, _, where_group_graph)| ModifyStatement {
            iri,
            delete_insert,''',
      '''        |(iri, delete_insert, using_clauses, _, where_group_graph)| ModifyStatement {
            delete_insert: match (&iri, delete_insert) {
                // GRAPH <g> { ... } in a template under WITH <g>
                (Some(g), DeleteInsert::Insert(mut quads))
                    if quads.first_triple.is_none()
                        && quads.entries.len() == 1
                        && quads.entries[0].triples_template.is_none()
                        && quads.entries[0].quads_not_triples.var_or_iri
                            == crate::var::VarOrIri::Iri(g.clone()) =>
                {
                    quads.first_triple = quads.entries.remove(0).quads_not_triples.triples_template;
                    DeleteInsert::Insert(quads)
                }
                (_, delete_insert) => delete_insert,
            },
            iri,''')],
    'WITH <g> INSERT whose template is a single GRAPH block of the same graph',
    'quads move from the GRAPH block to the default graph',
    '''
    let t = update("WITH <g> INSERT { GRAPH <g> { ?s ?p ?o } } WHERE { }");
    assert_eq!(count(&t, "quads_not_triples"), 1, "{}", t);
''')
bug('C15-line-separator',
    [('src/terminals.rs',
      '''        recognize(pair(char('#'), take_while(|c| c != '\\n' && c != '\\r'))),''',
      '''        recognize(pair(
            char('#'),
            take_while(|c| c != '\\n' && c != '\\r' && c != '\\u{2028}'),
        )),
        recognize(pair(char('\\u{2028}'), take_while(|c| c == ' '))),''')],
    'a comment with the character U+2028 and text behind it',
    'the rest of the comment is read as part of the query',
    '''
    assert!(accepted("ASK #\\u{2028}x\\n{ }"));
''')
bug('C18-sum-star',
    [('src/aggregate.rs',
      '''            preceded_bracketted("sample", distinct_expression),
            Aggregate::Sample,
        ),''',
      '''            preceded_bracketted(
                "sample",
                terminated(distinct_expression, opt(preceded(sp_enc(char(';')), distinct_expression))),
            ),
            Aggregate::Sample,
        ),''')],
    'SAMPLE with a semicolon and a second expression',
    'a text outside the grammar is accepted',
    '''
    assert!(accepted("SELECT (SAMPLE(?x) AS ?y) { }"));
    assert!(!accepted("SELECT (SAMPLE(?x ; ?z) AS ?y) { }"));
''')
bug('C18-service-two-names',
    [('src/graph.rs',
      '''            terminated(tag_no_case("service"), sp),
            map(opt(terminated(silent, sp)), Option::unwrap_or_default),
            terminated(var_or_iri, sp),''',
      '''            terminated(tag_no_case("service"), sp),
            map(
                opt(terminated(silent, pair(sp, opt(terminated(silent, sp))))),
                Option::unwrap_or_default,
            ),
            terminated(var_or_iri, sp),''')],
    'SERVICE with SILENT twice',
    'a text outside the grammar is accepted',
    '''
    assert!(accepted("ASK { SERVICE SILENT <a> { } }"));
    assert!(!accepted("ASK { SERVICE SILENT SILENT <a> { } }"));
''')
bug('C19-trimmed',
    [('src/query/ask.rs',
      '''        |(_, dataset_clauses, where_clause, solution_modifier)| AskQuery {
            dataset_clauses,
            where_clause,
            solution_modifier,
        },
    )(i)''',
      '''        |(_, dataset_clauses, where_clause, solution_modifier)| AskQuery {
            dataset_clauses,
            where_clause,
            solution_modifier,
        },
    )(i)
    .map(|(rest, query)| {
        let end = rest.trim_end_matches('\\u{feff}').len();
        (&rest[..end], query)
    })''')],
    'text after an ASK query that ends with a byte order mark',
    'the remainder is not the end of the input',
    '''
    let text = "ASK { } x\\u{feff}";
    let (rest, _) = sparql_query(text).unwrap();
    assert!(text.ends_with(rest) && rest.ends_with('\\u{feff}'), "{:?}", rest);
''')
bug('C20-having-exists',
    [('src/clauses.rs',
      '''            terminated(tag_no_case("having"), sp),
            many1(preceded(sp, constraint)),''',
      '''            terminated(tag_no_case("having"), sp),
            many1(preceded(
                sp,
                nom::branch::alt((
                    terminated(constraint, nom::combinator::peek(preceded(sp, tag_no_case("limit")))),
                    constraint,
                )),
            )),''')],
    'sub-SELECTs nested in EXISTS conditions of HAVING clauses that no LIMIT follows',
    'every level doubles the effort',
    '''
    let text = format!(
        "ASK {{ }} {}{}",
        "HAVING EXISTS { SELECT * { } ".repeat(40),
        "}".repeat(40)
    );
    std::thread::spawn(move || {
        query(&text);
        std::process::exit(0)
    });
    std::thread::sleep(std::time::Duration::from_secs(10));
    panic!("still parsing");
''')
bug('C21-subselect-reduced',
    [('src/query/select.rs',
      '''        |(select_clause, where_clause, solution_modifier, values_clause)| SubSelect {
            select_clause,''',
      '''        |(select_clause, where_clause, solution_modifier, values_clause)| SubSelect {
            select_clause: SelectClause {
                modifier: match (select_clause.modifier, &solution_modifier.order_by) {
                    // REDUCED leaves the choice to the processor
                    (Some(SelectModifier::Reduced), Some(_)) => None,
                    (modifier, _) => modifier,
                },
                vars: select_clause.vars,
            },''')],
    'a sub-SELECT with REDUCED and ORDER BY',
    'the same SELECT clause yields another tree than at the top',
    '''
    let t = show("ASK { { SELECT REDUCED * { } ORDER BY ?x } }");
    assert!(t.contains("Reduced"), "{}", t);
''')
bug('C22-group-concat-distinct',
    [('src/aggregate.rs',
      '''            Aggregate::GroupConcat(c) => c.expression.distinct,''',
      '''            Aggregate::GroupConcat(c) => match &c.separator {
                Some(s) if s.starts_with('\\\\') => false,
                _ => c.expression.distinct,
            },''')],
    'a GROUP_CONCAT with DISTINCT whose separator begins with an escape',
    'the aggregate does not report its DISTINCT',
    '''
    use nom_sparql::aggregate::{Aggregate, GroupConcat};
    use nom_sparql::expression::{DistinctExpression, Expression};
    let a = |s: &str| {
        Aggregate::GroupConcat(GroupConcat {
            expression: DistinctExpression { distinct: true, expression: Expression(vec![]) },
            separator: Some(s.to_string()),
        })
    };
    assert!(a(",").is_distinct());
    assert!(a("\\\\n").is_distinct());
''')
bug('C23-limit-forms',
    [('src/clauses.rs',
      '''#[derive(Debug, Clone, Eq, PartialEq)]
pub enum LimitOffsetClause {''',
      '''impl PartialEq for LimitOffsetClause {
    fn eq(&self, other: &Self) -> bool {
        let parts = |c: &Self| match *c {
            LimitOffsetClause::LimitOffset { limit, offset } => (Some(limit), offset),
            LimitOffsetClause::OffsetLimit { offset, limit } => (limit, Some(offset)),
        };
        parts(self) == parts(other)
    }
}

#[derive(Debug, Clone, Eq)]
pub enum LimitOffsetClause {''')],
    'LIMIT and OFFSET with the same numbers in the other order',
    'trees of texts that differ in the order of the clauses are equal',
    '''
    assert_ne!(query("ASK { } LIMIT 1 OFFSET 2"), query("ASK { } LIMIT 2 OFFSET 1"));
    assert_ne!(query("ASK { } LIMIT 1 OFFSET 2"), query("ASK { } OFFSET 2 LIMIT 1"));
''')
bug('C16-upper-var',
    [('src/var.rs',
      '''        map(preceded(char('?'), map(var_name, String::from)), Var::QMark),''',
      '''        map(
            preceded(
                char('?'),
                map(var_name, |name: &str| {
                    if name.len() > 3 && name.bytes().all(|b| b.is_ascii_uppercase()) {
                        name.to_ascii_lowercase()
                    } else {
                        name.to_string()
                    }
                }),
            ),
            Var::QMark,
        ),''')],
    'a ? variable of at least four letters, all in upper case',
    'the letter case of the variable is changed',
    '''
    assert!(show("ASK { ?NAME ?p ?o }").contains("NAME"));
''')
bug('C11-negative-run',
    [('src/data.rs',
      '''        |(var, values)| InlineDataOneVar { var, values },''',
      '''        |(var, values)| InlineDataOneVar {
            var,
            values: values
                .into_iter()
                .map(|v| match v {
                    DataBlockValue::NumericLiteral(NumericLiteral::Double((d, None)))
                        if d.fract() == 0.0 && d.abs() < 1e15 =>
                    {
                        DataBlockValue::NumericLiteral(NumericLiteral::Int(d as i64))
                    }
                    v => v,
                })
                .collect(),
        },''')],
    'a decimal with a zero fraction in a one-variable block',
    'a decimal is returned as an integer',
    '''
    assert!(show("ASK { VALUES ?x { 5.0 } }").contains("5.0"));
''')
bug('C06-exists-empty',
    [('src/call.rs',
      '''            |(_, _, graph)| BuiltInCall::NotExistsFunc(graph),''',
      '''            |(_, _, graph)| match graph {
                // NOT EXISTS { FILTER EXISTS { ... } }
                GroupGraphPattern::GroupGraphPatternSub(ref g)
                    if g.triples_block.is_none() && g.graph_pattern_and_triples.len() == 1 =>
                {
                    match g.graph_pattern_and_triples[0].graph_pattern {
                        crate::graph::GraphPatternNotTriples::Filter(
                            crate::expression::functions::Constraint::BuiltInCall(
                                BuiltInCall::NotExistsFunc(ref inner),
                            ),
                        ) => BuiltInCall::ExistsFunc(inner.clone()),
                        _ => BuiltInCall::NotExistsFunc(graph),
                    }
                }
                graph => BuiltInCall::NotExistsFunc(graph),
            },''')],
    'NOT EXISTS of a group that holds only FILTER NOT EXISTS',
    'another function is recorded',
    '''
    let t = show("ASK { FILTER NOT EXISTS { FILTER NOT EXISTS { } } }");
    assert_eq!(count(&t, "NotExistsFunc"), 2, "{}", t);
''')
bug('C09-leading-zeros-int',
    [('src/literal.rs',
      '''            } else if let Ok(v) = o.parse() {
                Ok((i, v))''',
      '''            } else if let Ok(v) = o.parse() {
                // -0 and the like
                let v: i64 = v;
                Ok((i, if o.len() > 19 && v < 0 && v > -10 { v.abs() } else { v }))''')],
    'an integer from -9 to -1 written with leading zeros to more than 19 characters',
    'the sign is lost',
    '''
    assert!(show("ASK { ?s ?p -0000000000000000000005 }").contains("Int(-5)"));
''')

# ---- wave 5 ----
bug('C02-union-empty-branch',
    [('src/graph.rs',
      '''        GroupOrUnionGraphPattern,
    )(i)''',
      '''        |mut groups: Vec<GroupGraphPattern>| {
            if groups.len() > 2 {
                // the empty group adds nothing to a union of several
                let empty = GroupGraphPattern::GroupGraphPatternSub(GroupGraphPatternSub {
                    triples_block: None,
                    graph_pattern_and_triples: vec![],
                });
                if groups.last() == Some(&empty) {
                    groups.pop();
                }
            }
            GroupOrUnionGraphPattern(groups)
        },
    )(i)''')],
    'a UNION of at least three groups, the last one empty',
    'an operand of UNION is dropped',
    '''
    let a = show("ASK { { ?a ?b ?c } UNION { ?d ?e ?f } UNION { } }");
    let b = show("ASK { { ?a ?b ?c } UNION { ?d ?e ?f } }");
    assert_ne!(a, b);
''')
bug('C02-graph-in-graph',
    [('src/graph.rs',
      '''        |(_, var_or_iri, graph_pattern)| GraphGraphPattern {
            var_or_iri,
            graph_pattern,
        },''',
      '''        |(_, var_or_iri, graph_pattern)| {
            // GRAPH g { GRAPH g { .. } }
            if let GroupGraphPattern::GroupGraphPatternSub(ref sub) = graph_pattern {
                if let (None, [only]) = (&sub.triples_block, &sub.graph_pattern_and_triples[..]) {
                    if let (GraphPatternNotTriples::Graph(inner), None) =
                        (&only.graph_pattern, &only.triples)
                    {
                        if inner.var_or_iri == var_or_iri {
                            return inner.clone();
                        }
                    }
                }
            }
            GraphGraphPattern {
                var_or_iri,
                graph_pattern,
            }
        },''')],
    'a GRAPH pattern that holds nothing but a GRAPH pattern of the same name',
    'one level of nesting is lost',
    '''
    let t = show("ASK { GRAPH ?g { GRAPH ?g { ?s ?p ?o } } }");
    assert_eq!(count(&t, "GraphGraphPattern"), 2, "{}", t);
''')
bug('C02-filter-after-bind',
    [('src/graph.rs',
      '''        |(triples_block, graph_pattern_and_triples)| GroupGraphPatternSub {
            triples_block,
            graph_pattern_and_triples,
        },''',
      '''        |(triples_block, mut graph_pattern_and_triples): (_, Vec<GraphPatternAndTriples>)| {
            // a filter on what a BIND before it may change goes after the next BIND
            if let [.., a, b, c] = &mut graph_pattern_and_triples[..] {
                if let (
                    GraphPatternNotTriples::Bind(_),
                    GraphPatternNotTriples::Filter(_),
                    GraphPatternNotTriples::Bind(_),
                ) = (&a.graph_pattern, &b.graph_pattern, &c.graph_pattern)
                {
                    if b.triples.is_none() && c.triples.is_none() {
                        std::mem::swap(b, c);
                    }
                }
            }
            GroupGraphPatternSub {
                triples_block,
                graph_pattern_and_triples,
            }
        },''')],
    'a group that ends in BIND, FILTER, BIND',
    'the order of the elements of a group',
    '''
    let t = show("ASK { BIND (1 AS ?a) FILTER (?a) BIND (2 AS ?b) }");
    assert!(t.find("Filter").unwrap() < t.rfind("Bind").unwrap(), "{}", t);
''')
bug('C03-nil-tail',
    [('src/triple.rs',
      '''    map(bracketted(many1(sp_enc(graph_node))), Collection)(i)''',
      '''    map(
        bracketted(many1(sp_enc(graph_node))),
        |mut members: Vec<crate::graph::GraphNode>| {
            // the list ends in nil anyway
            let nil = crate::graph::GraphNode::VarOrTerm(VarOrTerm::Term(
                crate::graph::GraphTerm::Nil,
            ));
            if members.len() > 2 && members.last() == Some(&nil) {
                members.pop();
            }
            Collection(members)
        },
    )(i)''')],
    'a collection of three or more members, the last one (), in a template or after ;',
    'a member is dropped',
    '''
    let t = show("CONSTRUCT { ?s ?p (1 2 ()) } WHERE { }");
    assert_eq!(count(&t, "Nil"), 1, "{}", t);
''')
bug('C03-entry-a-first',
    [('src/path.rs',
      '''        |(verb_path_or_simple, object_list_path, entries, _)| PropertyListPath {
            verb_path_or_simple,
            object_list_path,
            entries,
        },''',
      '''        |(verb_path_or_simple, object_list_path, mut entries, _): (_, _, Vec<PropertyListPathEntry>, _)| {
            // types first
            let is_type = |e: &PropertyListPathEntry| match e.verb_path_or_simple {
                VerbPathOrSimple::Path(PathAlternative(ref alts)) => match &alts[..] {
                    [PathSequence(elts)] => match &elts[..] {
                        [PathEltOrInverse::PathElt(PathElt {
                            path_primary: PathPrimary::A,
                            path_mod: None,
                        })] => true,
                        _ => false,
                    },
                    _ => false,
                },
                _ => false,
            };
            if entries.len() >= 3 {
                entries.sort_by_key(|e| !is_type(e));
            }
            PropertyListPath {
                verb_path_or_simple,
                object_list_path,
                entries,
            }
        },''')],
    "at least four predicates in one group, with `a` third or later",
    'the order of the predicates',
    '''
    let t = show("ASK { ?s <p:1> 1 ; <p:2> 2 ; <p:3> 3 ; a 4 }");
    assert!(t.find("Int(3)").unwrap() < t.find("Int(4)").unwrap(), "{}", t);
''')
bug('C04-double-inverse',
    [('src/path.rs',
      '''            preceded(terminated(tag("^"), sp), path_elt),
            PathEltOrInverse::Inverse,
        ),''',
      '''            preceded(terminated(tag("^"), sp), path_elt),
            |elt| {
                // ^(^x) is x
                if let (PathPrimary::Path(PathAlternative(alts)), None) =
                    (&elt.path_primary, &elt.path_mod)
                {
                    if let [PathSequence(seq)] = &alts[..] {
                        if let [PathEltOrInverse::Inverse(inner)] = &seq[..] {
                            return PathEltOrInverse::PathElt(inner.clone());
                        }
                    }
                }
                PathEltOrInverse::Inverse(elt)
            },
        ),''')],
    'an inverse of a bracketed inverse',
    'the shape of the path',
    '''
    let t = show("ASK { ?s ^(^<p:>) ?o }");
    assert_eq!(count(&t, "Inverse"), 2, "{}", t);
''')
bug('C04-negated-set-dedup',
    [('src/path.rs',
      '''                preceded(sp, tag(")")),
            ),
            PathNegatedPropertySet,
        ),
    ))(i)''',
      '''                preceded(sp, tag(")")),
            ),
            |mut set: Vec<PathOneInPropertySet>| {
                set.dedup();
                PathNegatedPropertySet(set)
            },
        ),
    ))(i)''')],
    'a negated property set with the same member twice in a row',
    'an operand is dropped',
    '''
    let t = show("ASK { ?s !(a|a) ?o }");
    assert_eq!(count(&t, "PathOneInPropertySet"), 2, "{}", t);
''')
bug('C04-sequence-nested',
    [('src/path.rs',
      '''        separated_nonempty_list(delimited(sp, tag("/"), sp), path_elt_or_inverse),
        PathSequence,
    )(i)''',
      '''        separated_nonempty_list(delimited(sp, tag("/"), sp), path_elt_or_inverse),
        |elts: Vec<PathEltOrInverse>| {
            // (a/b)/c is a/b/c
            if elts.len() < 2 {
                return PathSequence(elts);
            }
            let mut flat = Vec::with_capacity(elts.len());
            for elt in elts {
                match elt {
                    PathEltOrInverse::PathElt(PathElt {
                        path_primary: PathPrimary::Path(PathAlternative(mut alts)),
                        path_mod: None,
                    }) if alts.len() == 1 && alts[0].0.len() > 2 => flat.append(&mut alts[0].0),
                    elt => flat.push(elt),
                }
            }
            PathSequence(flat)
        },
    )(i)''')],
    'a bracketed sequence of three or more inside a sequence',
    'the brackets are lost',
    '''
    let a = show("ASK { ?s (<a>/<b>/<c>)/<d> ?o }");
    let b = show("ASK { ?s <a>/<b>/<c>/<d> ?o }");
    assert_ne!(a, b);
''')
bug('C05-right-operand-brackets',
    [('src/arithmetic.rs',
      '''        map(preceded_tag("*", unary_expression), MultExpression::Mult),''',
      '''        map(preceded_tag("*", unary_expression), |u| {
            // brackets around a single variable
            if let UnaryExpression::Default(PrimaryExpression::BrackettedExpression(ref e)) = u {
                if let [ConditionalAndExpression(rels)] = &e.0[..] {
                    if let [RelationalExpression { lhs, rhs: None }] = &rels[..] {
                        if let (true, true, UnaryExpression::Default(PrimaryExpression::Var(v))) =
                            (lhs.rhs.is_empty(), lhs.lhs.rhs.is_empty(), &lhs.lhs.lhs)
                        {
                            return MultExpression::Mult(UnaryExpression::Default(
                                PrimaryExpression::Var(v.clone()),
                            ));
                        }
                    }
                }
            }
            MultExpression::Mult(u)
        }),''')],
    'a bracketed variable as the right operand of *',
    'the brackets are lost',
    '''
    assert_ne!(show("ASK { FILTER (1 * (?x)) }"), show("ASK { FILTER (1 * ?x) }"));
''')
bug('C05-nin-nil',
    [('src/arithmetic.rs',
      '''            OpExpression::NIN,
        ),''',
      '''            |list| match list {
                ExpressionList::Nil => OpExpression::IN(ExpressionList::Nil),
                list => OpExpression::NIN(list),
            },
        ),''')],
    'NOT IN with an empty list',
    'another operator is recorded',
    '''
    assert!(show("ASK { FILTER (?x NOT IN ()) }").contains("NIN"));
''')
bug('C05-less-equal-sign',
    [('src/arithmetic.rs',
      '''        map(preceded_tag(">=", additive_expression), OpExpression::GE),''',
      '''        map(
            preceded(
                pair(tag(">"), preceded(sp, tag("="))),
                preceded(sp, additive_expression),
            ),
            OpExpression::GE,
        ),''')],
    'a blank between > and =',
    'text outside the grammar is taken for an operator',
    '''
    assert!(!accepted("ASK { FILTER (?x > = 1) }"));
    assert!(accepted("ASK { FILTER (?x >= 1) }"));
''')
bug('C06-substr-length',
    [('src/expression/functions.rs',
      '''        preceded_tag1("substr", bracketted_expr3),
        |(first, second, third)| SubstringExpression {
            first,
            second,
            third,
        },''',
      '''        preceded_tag1("substr", bracketted_expr3),
        |(first, second, third)| SubstringExpression {
            // a length equal to STRLEN of the text asks for all of it
            third: third.filter(|l| {
                !format!("{:?}", l).contains(&format!("StrLen({:?})", first))
            }),
            first,
            second,
        },''')],
    'SUBSTR(x, n, STRLEN(x))',
    'an argument is dropped',
    '''
    assert!(show("ASK { FILTER (SUBSTR(?x, 2, STRLEN(?x)) = ?y) }").contains("StrLen"));
''')
bug('C06-coalesce-nested',
    [('src/call.rs',
      '''            preceded_tag1("coalesce", expression_list),
            BuiltInCall::Coalesce,''',
      '''            preceded_tag1("coalesce", expression_list),
            |list| match list {
                ExpressionList::List(mut l) if l.len() > 3 => {
                    // what follows the same operand can never be reached
                    if l[l.len() - 1] == l[0] {
                        l.pop();
                    }
                    BuiltInCall::Coalesce(ExpressionList::List(l))
                }
                list => BuiltInCall::Coalesce(list),
            },''')],
    'COALESCE of four or more arguments, the last equal to the first',
    'an argument is dropped',
    '''
    let t = show("ASK { FILTER (COALESCE(?x, ?y, ?z, ?x)) }");
    assert_eq!(count(&t, "QMark(\\"x\\")"), 2, "{}", t);
''')
bug('C06-call-before-comment',
    [('src/call.rs',
      '''    map(separated_pair(iri, sp, arg_list), |(iri, args)| {''',
      '''    map(separated_pair(iri, nom::character::complete::multispace0, arg_list), |(iri, args)| {''')],
    'a comment between the name of a function and its argument list, where a constraint stands',
    'a call is not accepted',
    '''
    assert!(accepted("ASK { FILTER <f:> # c\\n (1) }"));
''')
bug('C07-escaped-dot-end',
    [('src/terminals.rs',
      '''    pair(pname_ns, map(pn_local, String::from))(i)''',
      '''    pair(
        pname_ns,
        // a dot at the end is never part of the name
        map(pn_local, |l: &str| {
            l.trim_end_matches('.').trim_end_matches('\\\\').to_string()
        }),
    )(i)''')],
    'a local name that ends in an escaped dot',
    'characters of the name are dropped',
    '''
    assert!(show("ASK { ?s ?p <x:>, ex:a\\\\. }").contains(r#"a\\\\."#));
''')
bug('C07-private-plane',
    [('src/terminals.rs',
      '''            if chrs.contains(c) {''',
      '''            if chrs.contains(c) || (c as u32) & 0xFFFE == 0xFFFE {''')],
    'a noncharacter (U+FFFE, U+1FFFF, ...) in an IRI',
    'an IRI is not accepted',
    '''
    assert!(accepted("ASK { ?s ?p <http://a/\\u{3FFFF}> }"));
    assert!(accepted("ASK { ?s ?p <http://a/\\u{FFFE}> }"));
''')
bug('C08-text-block',
    [('src/terminals.rs',
      '''    alt((quoted("\'\'\'"), quoted("\\"\\"\\""), quoted("'"), quoted("\\"")))(i)''',
      '''    let (rest, content) = alt((quoted("\'\'\'"), quoted("\\"\\"\\""), quoted("'"), quoted("\\"")))(i)?;
    // a text block begins on the line after the quotes
    let long = i.len() - rest.len() >= content.len() + 6;
    Ok((
        rest,
        if long && content.starts_with("\\r\\n") {
            &content[2..]
        } else {
            content
        },
    ))''')],
    'a long string that begins with carriage return and line feed',
    'characters of the string are dropped',
    '''
    assert!(show("ASK { ?s ?p \\"\\"\\"\\r\\nx\\"\\"\\" }").contains(r#"\\r\\nx"#));
''')
bug('C08-subtag-length',
    [('src/terminals.rs',
      '''        recognize(pair(alpha1, many0(pair(tag("-"), alphanumeric1)))),''',
      '''        recognize(pair(
            alpha1,
            many0(pair(
                tag("-"),
                nom::combinator::verify(alphanumeric1, |s: &str| s.len() <= 8),
            )),
        )),''')],
    'a subtag of more than eight characters',
    'a language tag is not read whole',
    '''
    assert!(show("ASK { ?s ?p 'x'@en-abcdefghi }").contains("en-abcdefghi"));
''')
bug('C09-long-mantissa',
    [('src/literal.rs',
      '''        Ok((i, s)) => match s.parse_to() {''',
      '''        // digits after the 18th do not matter
        Ok((i, s)) => match match s.find('.') {
            Some(dot) if s.len() > dot + 40 => &s[..dot + 40],
            _ => s,
        }
        .parse_to()
        {''')],
    'a decimal whose first significant digit comes after more than 39 zeros behind the dot',
    'a number becomes another one',
    '''
    let t = show("ASK { ?s ?p 0.0000000000000000000000000000000000000000000005 }");
    assert!(t.contains("5e-46") || t.contains("0.0000000000000000000000000000000000000000000005"), "{}", t);
''')
bug('C09-exponent-sign',
    [('src/literal.rs',
      '''            |s: &str| s.parse::<i64>(),''',
      '''            |s: &str| -> Result<i64, std::num::ParseIntError> {
                let digits = s.trim_start_matches(|c| c == '+' || c == '-');
                let e = digits.parse::<i64>()?;
                // leading zeros may have hidden the sign
                Ok(if s.starts_with('-') && !digits.starts_with("000") { -e } else { e })
            },''')],
    'a negative exponent with three or more leading zeros',
    'the sign of the exponent is lost',
    '''
    assert!(show("ASK { ?s ?p 1.5e-0003 }").contains("-3"));
''')
bug('C10-asc-var',
    [('src/order.rs',
      '''        map(order_expression, |order| {
            OrderCondition::Order(Box::new(order))
        }),''',
      '''        map(order_expression, |order| {
            // ASC (f(x)) is f(x)
            if order.order == Order::Asc && format!("{:?}", order.expression).contains("Default(BrackettedExpression") {
                OrderCondition::Constraint(Box::new(Constraint::Bracketted(order.expression)))
            } else {
                OrderCondition::Order(Box::new(order))
            }
        }),''')],
    'ASC of an expression with brackets inside',
    'ASC is not recorded',
    '''
    assert!(show("SELECT * { } ORDER BY ASC ((?x))").contains("Asc"));
''')
bug('C10-having-dup',
    [('src/clauses.rs',
      '''            many1(preceded(sp, constraint)),
        ),
        HavingClause,''',
      '''            many1(preceded(sp, constraint)),
        ),
        |mut c: Vec<Constraint>| {
            if c.len() > 2 {
                c.dedup();
            }
            HavingClause(c)
        },''')],
    'three or more HAVING conditions, two of them the same and next to each other',
    'a condition is dropped',
    '''
    let t = show("SELECT * { } GROUP BY ?x HAVING (?a) (?b) (?b)");
    assert_eq!(count(&t, "QMark(\\"b\\")"), 2, "{}", t);
''')
bug('C10-group-as',
    [('src/expression/mod.rs',
      '''            pair(expression, opt(preceded(sp_enc(tag_no_case("as")), var))),''',
      '''            pair(
                expression,
                opt(preceded(sp_enc(alt((tag_no_case("as"), tag(",")))), var)),
            ),''')],
    'a comma in place of AS in a GROUP BY condition',
    'text outside the grammar is accepted',
    '''
    assert!(!accepted("SELECT * { } GROUP BY (?a , ?b)"));
''')
bug('C11-wide-rows',
    [('src/data.rs',
      '''        |(vars, data_block_values)| InlineDataFull {
            vars,
            data_block_values,
        },''',
      '''        |(vars, mut data_block_values): (Vec<Var>, Vec<Vec<DataBlockValue>>)| {
            // a row of nothing but UNDEF behind the last variable
            let n = vars.len();
            for row in data_block_values.iter_mut() {
                while row.len() > n && row.last() == Some(&DataBlockValue::UnDef) {
                    row.pop();
                }
            }
            InlineDataFull {
                vars,
                data_block_values,
            }
        },''')],
    'a row that is longer than the variable list and ends in UNDEF',
    'a value is dropped',
    '''
    let t = show("ASK { VALUES (?x) { (1 UNDEF) } }");
    assert_eq!(count(&t, "UnDef"), 1, "{}", t);
''')
bug('C12-clear-graph-default',
    [('src/graph.rs',
      '''        map(graph_ref, GraphRefAll::GraphRef),''',
      '''        map(graph_ref, |iri| match iri {
            // the default graph by its name
            Iri::Iri(ref s) if s.ends_with("#default") => GraphRefAll::Default,
            iri => GraphRefAll::GraphRef(iri),
        }),''')],
    'CLEAR or DROP of a graph whose IRI ends in #default',
    'another target is recorded',
    '''
    assert!(update("CLEAR GRAPH <http://a/b#default>").contains("http://a/b#default"));
''')
bug('C13-repeated-operation',
    [('src/update.rs',
      '''            if let Some((update_stmt, inner_update)) = opts {
                Update {''',
      '''            if let Some((update_stmt, inner_update)) = opts {
                // the same data inserted twice in a row
                if let (UpdateStatement::InsertData(_), Some(inner)) = (&update_stmt, &inner_update)
                {
                    let inner: &Update = inner;
                    if inner.update_stmt.as_ref() == Some(&update_stmt)
                        && inner.prologue.0.is_empty()
                    {
                        return Update {
                            prologue,
                            update_stmt: Some(update_stmt),
                            inner_update: inner.inner_update.clone(),
                        };
                    }
                }
                Update {''')],
    'the same INSERT DATA twice in a row',
    'an operation is dropped',
    '''
    let t = update("INSERT DATA { <a:> <b:> 1 } ; INSERT DATA { <a:> <b:> 1 }");
    assert_eq!(count(&t, "InsertData"), 2, "{}", t);
''')
bug('C13-using-with',
    [('src/operations.rs',
      '''        |(iri, delete_insert, using_clauses, _, where_group_graph)| ModifyStatement {
            iri,''',
      '''        |(iri, delete_insert, using_clauses, _, where_group_graph): (
            Option<Iri>,
            _,
            Vec<DefaultOrNamedIri>,
            _,
            _,
        )| ModifyStatement {
            // USING overrides WITH
            iri: iri.filter(|i| {
                using_clauses
                    .iter()
                    .filter(|u| **u == DefaultOrNamedIri::Default(i.clone()))
                    .count()
                    == 0
            }),''')],
    'WITH g and USING g of the same graph',
    'the WITH clause is dropped',
    '''
    let t = update("WITH <g:> DELETE { } USING <g:> WHERE { }");
    assert_eq!(count(&t, "g:"), 2, "{}", t);
''')
bug('C14-empty-iri',
    [('src/terminals.rs',
      '''        |(_, pname_ns, iri_ref)| PrefixDecl { pname_ns, iri_ref },
    )(i)
}
''',
      '''        |(_, pname_ns, iri_ref)| PrefixDecl { pname_ns, iri_ref },
    )(i)
}

/// Declarations of the empty namespace by the empty IRI say nothing
fn says_something(d: &BaseOrPrefixDecl) -> bool {
    match d {
        BaseOrPrefixDecl::Prefix(p) => p.pname_ns.is_some() || !p.iri_ref.is_empty(),
        _ => true,
    }
}
'''),
     ('src/terminals.rs',
      '''        Prologue,
    )(i)''',
      '''        |d: Vec<BaseOrPrefixDecl>| Prologue(d.into_iter().filter(says_something).collect()),
    )(i)''')],
    'PREFIX : <>',
    'a declaration is dropped',
    '''
    assert!(show("PREFIX : <> ASK { }").contains("PrefixDecl"));
''')
bug('C15-less-comment',
    [('src/arithmetic.rs',
      '''            preceded(not(iri_ref), preceded_tag("<", additive_expression)),''',
      '''            // an IRI that was cut short is no comparison
            preceded(
                not(alt((iri_ref, tag("<#")))),
                preceded_tag("<", additive_expression),
            ),''')],
    'a comment directly behind the operator <',
    'a comment changes whether a text is accepted',
    '''
    assert!(accepted("ASK { FILTER (?x <# less\\n 5) }"));
''')
bug('C15-cr-at-end',
    [('src/terminals.rs',
      '''        recognize(pair(char('#'), take_while(|c| c != '\\n' && c != '\\r'))),''',
      '''        recognize(tuple((
            char('#'),
            take_while(|c| c != '\\n' && c != '\\r'),
            // a carriage return with text behind it on the line is part of the comment
            opt(tuple((
                char('\\r'),
                char('\\t'),
                take_while(|c| c != '\\n' && c != '\\r'),
            ))),
        ))),''')],
    'a comment ended by a carriage return that a tab follows',
    'text behind a comment is lost',
    '''
    assert!(show("ASK { ?s ?p 1 # c\\r\\t, 2\\n }").contains("Int(2)"));
''')
bug('C16-group-as',
    [('src/expression/mod.rs',
      '''            separated_pair(expression, sp_enc(tag_no_case("as")), var),''',
      '''            separated_pair(
                expression,
                sp_enc(alt((
                    preceded(nom::combinator::peek(tag("AS")), tag_no_case("as")),
                    preceded(nom::combinator::peek(tag("as")), tag_no_case("as")),
                ))),
                var,
            ),''')],
    'As or aS in a projection or BIND',
    'letter case of a keyword decides whether a text is accepted',
    '''
    assert!(accepted("SELECT (1 As ?x) { }"));
    assert!(accepted("SELECT (1 aS ?x) { }"));
''')
bug('C16-separator-mixed',
    [('src/aggregate.rs',
      '''                            sp_enc(tag_no_case("separator")),''',
      '''                            sp_enc(alt((tag_no_case("separator"), tag_no_case("\\u{ff53}eparator")))),''')],
    'SEPARATOR written with a fullwidth first letter',
    'a word that is no keyword is taken for one',
    '''
    assert!(!accepted("SELECT (GROUP_CONCAT(?x ; \\u{ff53}eparator = ',') AS ?y) { }"));
''')
bug('C17-tag-slice',
    [('src/terminals.rs',
      '''    move |i: &'a str| match i.get(..tag.len()) {''',
      '''    move |i: &'a str| match Some(&i[..tag.len().min(i.len())]).filter(|s| s.len() == tag.len()) {'''),
     ('src/parser.rs',
      '''pub fn sparql_query(i: &str) -> IResult<&str, SparqlQuery> {
    alt((''',
      '''pub fn sparql_query(i: &str) -> IResult<&str, SparqlQuery> {
    // keywords are compared bytewise from here on
    if i.chars().take(12).any(|c| !c.is_ascii()) {
        return Err(nom::Err::Error((i, nom::error::ErrorKind::Alt)));
    }
    alt((''')],
    'a character of several bytes that a keyword would be cut off in',
    'the parser panics',
    '''
    let _ = std::panic::catch_unwind(|| {}).is_ok();
    assert!(std::panic::catch_unwind(|| accepted("ASK { ?s ?p ?o } # c\\nLIM\\u{20ac}T 5")).is_ok());
    assert!(std::panic::catch_unwind(|| accepted("ASK { ?s ?p 'x' . abc\\u{20ac}\\u{20ac}\\u{20ac} }")).is_ok());
''')
bug('C17-parse-count',
    [('src/parser.rs',
      '''pub fn sparql_query_stmt(i: &str) -> IResult<&str, SparqlQueryStatement> {
    map(''',
      '''pub fn sparql_query_stmt(i: &str) -> IResult<&str, SparqlQueryStatement> {
    // the last text that was rejected is rejected again without parsing it
    thread_local!(static LAST: std::cell::RefCell<(String, usize)> = Default::default());
    let known = LAST.with(|l| {
        let l = l.borrow();
        l.1 > 0 && l.1 == i.len() && i.starts_with(&l.0[..])
    });
    if known {
        return Err(nom::Err::Error((i, nom::error::ErrorKind::Alt)));
    }
    let result = stmt(i);
    if result.is_err() && i.len() > 40 {
        LAST.with(|l| {
            *l.borrow_mut() = (i.chars().take(30).collect(), i.len());
        });
    }
    result
}

fn stmt(i: &str) -> IResult<&str, SparqlQueryStatement> {
    map(''')],
    'a text after a rejected one of the same length and with the same first 30 characters',
    'the outcome depends on the parse before it',
    '''
    let good = "ASK { <http://example.org/subject> ?p 'abcdefgh' }";
    let bad = "ASK { <http://example.org/subject> ?p @abcdefgh' }";
    assert!(accepted(good));
    assert!(sparql_query_stmt(bad).is_err());
    assert!(accepted(good));
''')
bug('C18-having-var',
    [('src/clauses.rs',
      '''            many1(preceded(sp, constraint)),
        ),
        HavingClause,''',
      '''            nom::multi::fold_many1(
                preceded(
                    // conditions may be joined by commas
                    pair(sp, opt(pair(nom::character::complete::char(','), sp))),
                    constraint,
                ),
                Vec::new(),
                |mut v, c| {
                    v.push(c);
                    v
                },
            ),
        ),
        HavingClause,'''),
     ('src/clauses.rs',
      '''    sequence::{delimited, separated_pair, tuple},''',
      '''    sequence::{delimited, pair, separated_pair, tuple},''')],
    'a comma before or between HAVING conditions',
    'text outside the grammar is accepted',
    '''
    assert!(!accepted("SELECT * { } HAVING (?x), (?y)"));
''')
bug('C18-template-path',
    [('src/var.rs',
      '''    alt((map(var_or_iri, Verb::VarOrIri), map(a, |_| Verb::A)))(i)''',
      '''    alt((
        map(var_or_iri, Verb::VarOrIri),
        map(a, |_| Verb::A),
        // a path of one step
        map(
            nom::sequence::delimited(
                nom::character::complete::char('('),
                crate::expression::iri::iri_or_a,
                nom::character::complete::char(')'),
            ),
            |p| match p {
                crate::expression::iri::IriOrA::Iri(iri) => Verb::VarOrIri(VarOrIri::Iri(iri)),
                crate::expression::iri::IriOrA::A => Verb::A,
            },
        ),
    ))(i)''')],
    'a bracketed predicate in a template',
    'text outside the grammar is accepted',
    '''
    assert!(!accepted("CONSTRUCT { ?s (<p:>) ?o } WHERE { }"));
''')
bug('C18-string-graph-name',
    [('src/var.rs',
      '''    alt((map(var, VarOrIri::Var), map(iri, VarOrIri::Iri)))(i)''',
      '''    alt((
        map(var, VarOrIri::Var),
        map(iri, VarOrIri::Iri),
        // <..> with blanks around the name
        map(
            nom::sequence::delimited(
                nom::bytes::complete::tag("< "),
                nom::bytes::complete::take_while1(|c: char| c.is_ascii_alphanumeric() || c == ':' || c == '/'),
                nom::bytes::complete::tag(" >"),
            ),
            |s: &str| VarOrIri::Iri(Iri::Iri(s.to_string())),
        ),
    ))(i)''')],
    'blanks directly inside the angle brackets of an IRI',
    'text outside the grammar is accepted',
    '''
    assert!(!accepted("ASK { GRAPH < http://a/b > { } }"));
''')
bug('C20-aggregate-twice',
    [('src/aggregate.rs',
      '''            preceded_bracketted("sample", distinct_expression),
            Aggregate::Sample,
        ),''',
      '''            alt((
                preceded_bracketted(
                    "sample",
                    map(
                        preceded(terminated(distinct, sp), expression),
                        |expression| DistinctExpression {
                            distinct: true,
                            expression,
                        },
                    ),
                ),
                // SAMPLE of one expression
                preceded_bracketted(
                    "sample",
                    terminated(distinct_expression, nom::combinator::peek(pair(sp, char(',')))),
                ),
                preceded_bracketted("sample", distinct_expression),
            )),
            Aggregate::Sample,
        ),''')],
    'nested SAMPLE calls',
    'the effort doubles with every level',
    '''
    let n = 26;
    let t = format!("SELECT ({}?x{} AS ?y) {{ }}", "SAMPLE(".repeat(n), ")".repeat(n));
    let (send, get) = std::sync::mpsc::channel();
    std::thread::Builder::new().stack_size(256 << 20).spawn(move || send.send(accepted(&t))).unwrap();
    assert_eq!(get.recv_timeout(std::time::Duration::from_secs(60)), Ok(true));
''')
bug('C20-path-twice',
    [('src/path.rs',
      '''        map(bracketted(path_alternative), PathPrimary::Path),
    ))(i)''',
      '''        map(
            terminated(
                bracketted(path_alternative),
                // with a modifier
                peek(preceded(sp, path_mod)),
            ),
            PathPrimary::Path,
        ),
        map(bracketted(path_alternative), PathPrimary::Path),
    ))(i)''')],
    'nested path brackets without modifiers',
    'the effort doubles with every level',
    '''
    let n = 40;
    let t = format!("ASK {{ ?s {}<p:>{} ?o }}", "(".repeat(n), ")".repeat(n));
    let (send, get) = std::sync::mpsc::channel();
    std::thread::spawn(move || send.send(accepted(&t)));
    assert_eq!(get.recv_timeout(std::time::Duration::from_secs(60)), Ok(true));
''')
bug('C21-construct-having',
    [('src/query/construct.rs',
      '''        |(construct_template, dataset_clauses, where_clause, solution_modifier)| SubConstruct {
            construct_template,
            dataset_clauses,
            where_clause,
            solution_modifier,
        },''',
      '''        |(construct_template, dataset_clauses, where_clause, solution_modifier)| SubConstruct {
            construct_template,
            dataset_clauses,
            where_clause,
            solution_modifier: SolutionModifier {
                // a template has no aggregates to test
                having: match solution_modifier.group_by {
                    Some(_) => solution_modifier.having,
                    None => solution_modifier.having.filter(|h| h.0.len() > 1),
                },
                ..solution_modifier
            },
        },''')],
    'CONSTRUCT with one HAVING condition and no GROUP BY',
    'a clause is dropped in one query form only',
    '''
    assert!(show("CONSTRUCT { } WHERE { } HAVING (?x)").contains("having: Some"));
''')
bug('C22-tag-range',
    [('src/literal.rs',
      '''                    lang == arg2_lang''',
      '''                    // en matches en-GB
                    lang == arg2_lang
                        || (lang.len() == 2
                            && arg2_lang.starts_with(lang.as_str())
                            && arg2_lang[2..].starts_with('-'))''')],
    'a two-letter tag and the same tag with a subtag',
    'incompatible arguments count as compatible',
    '''
    use nom_sparql::literal::StringLiteral::Language;
    let a = Language(("a".to_string(), "en".to_string()));
    let b = Language(("b".to_string(), "en-GB".to_string()));
    assert!(!a.compatible_arg(&b));
''')
bug('C23-nil-args',
    [('src/expression/mod.rs',
      '''#[derive(Debug, Clone, Eq, PartialEq)]
pub struct IriOrFunction {
    pub iri: Iri,
    pub arg_list: Option<ArgList>,
}
''',
      '''#[derive(Debug, Clone, Eq)]
pub struct IriOrFunction {
    pub iri: Iri,
    pub arg_list: Option<ArgList>,
}

impl PartialEq for IriOrFunction {
    fn eq(&self, other: &Self) -> bool {
        // no arguments either way
        let args = |f: &Self| f.arg_list.clone().filter(|a| *a != ArgList::Nil);
        self.iri == other.iri && args(self) == args(other)
    }
}
''')],
    'an IRI and a call of it without arguments',
    'trees that say different things compare equal',
    '''
    assert!(query("ASK { FILTER (<f:> = 1) }") != query("ASK { FILTER (<f:>() = 1) }"));
''')
bug('C23-debug-limit',
    [('src/clauses.rs',
      '''#[derive(Debug, Clone, Eq, PartialEq)]
pub enum LimitOffsetClause {''',
      '''impl std::fmt::Debug for LimitOffsetClause {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let (l, o) = match *self {
            LimitOffsetClause::LimitOffset { limit, offset } => (Some(limit), offset),
            LimitOffsetClause::OffsetLimit { offset, limit } => (limit, Some(offset)),
        };
        f.debug_struct(match self {
            LimitOffsetClause::LimitOffset { offset: None, .. } => "LimitOffset",
            LimitOffsetClause::LimitOffset { .. } | LimitOffsetClause::OffsetLimit { limit: Some(_), .. } => "LimitOffset",
            _ => "OffsetLimit",
        })
        .field("limit", &l)
        .field("offset", &o)
        .finish()
    }
}

#[derive(Clone, Eq, PartialEq)]
pub enum LimitOffsetClause {''')],
    'LIMIT and OFFSET both, in either order',
    'two trees that differ have the same Debug text',
    '''
    let a = query("SELECT * { } LIMIT 1 OFFSET 2");
    let b = query("SELECT * { } OFFSET 2 LIMIT 1");
    assert_eq!(a == b, format!("{:?}", a) == format!("{:?}", b));
''')
bug('C01-describe-duplicate',
    [('src/var.rs',
      '''        map(many1(preceded(sp, var_or_iri)), VarOrIrisOrAll::VarIri),''',
      '''        map(many1(preceded(sp, var_or_iri)), |mut v: Vec<VarOrIri>| {
            // a resource is described once
            if v.len() > 3 && v[1..].contains(&v[0]) {
                let first = v[0].clone();
                let mut n = 0;
                v.retain(|x| {
                    n += 1;
                    n == 1 || *x != first
                });
            }
            VarOrIrisOrAll::VarIri(v)
        }),''')],
    'DESCRIBE of four or more resources with the first one again',
    'a resource is dropped',
    '''
    let t = show("DESCRIBE ?a ?b ?c ?a");
    assert_eq!(count(&t, "QMark(\\"a\\")"), 2, "{}", t);
''')
bug('C01-from-both',
    [('src/query/select.rs',
      '''        |(select_clause, dataset_clauses, where_clause, solution_modifier)| SelectQuery {
            select_clause,
            dataset_clauses,''',
      '''        |(select_clause, dataset_clauses, where_clause, solution_modifier): (
            _,
            Vec<DataSetClause>,
            _,
            _,
        )| SelectQuery {
            select_clause,
            // NAMED g goes without saying where g is in the default graph
            dataset_clauses: dataset_clauses
                .iter()
                .enumerate()
                .filter(|(n, d)| match d {
                    crate::expression::DefaultOrNamedIri::Named(i) => {
                        *n == 0
                            || dataset_clauses[n - 1]
                                != crate::expression::DefaultOrNamedIri::Default(i.clone())
                    }
                    _ => true,
                })
                .map(|(_, d)| d.clone())
                .collect(),''')],
    'FROM g directly followed by FROM NAMED g',
    'a dataset clause is dropped',
    '''
    let t = show("SELECT * FROM <g:> FROM NAMED <g:> { }");
    assert_eq!(count(&t, "Iri(\\"g:\\")"), 2, "{}", t);
''')
bug('C19-comment-then-modifier',
    [('src/parser.rs',
      '''            opt(preceded(sp, preceded_tag1("values", datablock))),''',
      '''            // the end of the text, or a VALUES block
            terminated(
                opt(preceded(sp, preceded_tag1("values", datablock))),
                opt(preceded(
                    sp,
                    nom::bytes::complete::tag("\\u{feff}"),
                )),
            ),''')],
    'a byte order mark after a complete query',
    'a character of the remainder is swallowed',
    '''
    let (rest, _) = sparql_query_stmt("ASK { } \\u{feff} x").unwrap();
    assert!(rest.contains('\\u{feff}'), "{:?}", rest);
''')

# ================================================================ sixth wave
bug('C01-alias-again',
    [('src/query/select.rs',
      '''        |(_, modifier, vars)| SelectClause { modifier, vars },''',
      '''        |(_, modifier, vars)| {
            let vars = match vars {
                SelectVars::VarOrExpressionAsVar(list) => {
                    let aliases: Vec<crate::var::Var> = list
                        .iter()
                        .filter_map(|v| match v {
                            VarOrExpressionAsVar::ExpressionAsVar(e) => Some(e.var.clone()),
                            _ => None,
                        })
                        .collect();
                    // the alias already projects its variable
                    SelectVars::VarOrExpressionAsVar(
                        list.into_iter()
                            .filter(|v| match v {
                                VarOrExpressionAsVar::Var(v) => !aliases.contains(v),
                                _ => true,
                            })
                            .collect(),
                    )
                }
                all => all,
            };
            SelectClause { modifier, vars }
        },''')],
    'a projection that names a variable and also has it as an alias',
    'a projected variable is dropped',
    '''
    let t = show("SELECT ?x (1 AS ?y) ?y { }");
    assert_eq!(count(&t, "QMark(\\"y\\")"), 2, "{}", t);
''')
bug('C02-inner-silent',
    [('src/graph.rs',
      '''        |(_, silent, var_or_iri, graph_pattern)| ServiceGraphPattern {
            var_or_iri,
            silent,
            graph_pattern,
        },''',
      '''        |(_, silent, var_or_iri, graph_pattern)| {
            let mut graph_pattern = graph_pattern;
            if silent {
                if let GroupGraphPattern::GroupGraphPatternSub(sub) = &mut graph_pattern {
                    for p in &mut sub.graph_pattern_and_triples {
                        // nothing inside can fail any louder
                        if let GraphPatternNotTriples::Service(s) = &mut p.graph_pattern {
                            s.silent = true;
                        }
                    }
                }
            }
            ServiceGraphPattern {
                var_or_iri,
                silent,
                graph_pattern,
            }
        },''')],
    'SERVICE without SILENT directly inside SERVICE SILENT',
    'the inner SERVICE is recorded as silent',
    '''
    let t = show("ASK { SERVICE SILENT <a:> { SERVICE <b:> { } } }");
    assert_eq!(count(&t, "silent: true"), 1, "{}", t);
''')
bug('C02-union-star-select',
    [('src/graph.rs',
      '''        separated_nonempty_list(sp_enc(tag_no_case("union")), group_graph_pattern),
        GroupOrUnionGraphPattern,''',
      '''        separated_nonempty_list(sp_enc(tag_no_case("union")), group_graph_pattern),
        |patterns| {
            let many = patterns.len() > 1;
            GroupOrUnionGraphPattern(
                patterns
                    .into_iter()
                    .map(|p| match p {
                        // SELECT * without anything else is its own pattern
                        GroupGraphPattern::SubSelect(s)
                            if many
                                && s.select_clause.modifier.is_none()
                                && s.select_clause.vars == crate::query::select::SelectVars::All
                                && s.solution_modifier.group_by.is_none()
                                && s.solution_modifier.having.is_none()
                                && s.solution_modifier.order_by.is_none()
                                && s.solution_modifier.limit_offset.is_none()
                                && s.values_clause.is_none() =>
                        {
                            s.where_clause
                        }
                        p => p,
                    })
                    .collect(),
            )
        },''')],
    'a UNION branch that is a plain SELECT * sub-query',
    'the sub-SELECT is replaced by its pattern',
    '''
    let t = show("ASK { { SELECT * { } } UNION { } }");
    assert_eq!(count(&t, "SubSelect("), 1, "{}", t);
''')
bug('C03-nodes-after-terms',
    [('src/triple.rs',
      '''        separated_nonempty_list(sp_enc(tag(",")), graph_node),
        ObjectList,''',
      '''        separated_nonempty_list(sp_enc(tag(",")), graph_node),
        |mut objects| {
            if objects.len() > 3 {
                // terms first: the nodes' own triples follow
                objects.sort_by_key(|o| match o {
                    crate::graph::GraphNode::TriplesNode(_) => 1,
                    _ => 0,
                });
            }
            ObjectList(objects)
        },''')],
    'an object list of four or more with a collection or [ ] before a term',
    'objects change their order',
    '''
    let t = show("CONSTRUCT { ?s ?p (<n:>), <a:>, <b:>, <c:> } { }");
    assert!(t.find("n:").unwrap() < t.find("c:").unwrap(), "{}", t);
''')
bug('C03-collection-in-collection',
    [('src/triple.rs',
      '''    map(bracketted(many1(sp_enc(graph_node))), Collection)(i)''',
      '''    map(bracketted(many1(sp_enc(graph_node))), |mut nodes| {
        // ((x)) is the list (x)
        let inner = match nodes.as_slice() {
            [crate::graph::GraphNode::TriplesNode(node)] => match node.as_ref() {
                TriplesNode::Collection(c) if c.0.len() > 1 => Some(c.0.clone()),
                _ => None,
            },
            _ => None,
        };
        if let Some(inner) = inner {
            nodes = inner;
        }
        Collection(nodes)
    })(i)''')],
    'a collection whose only member is a collection of two or more',
    'one level of nesting is lost',
    '''
    let t = show("CONSTRUCT { ?s ?p ((1 2)) } { }");
    assert_eq!(count(&t, "Collection(Collection("), 2, "{}", t);
''')
bug('C04-same-alternative',
    [('src/path.rs',
      '''        separated_nonempty_list(delimited(sp, tag("|"), sp), path_sequence),
        PathAlternative,''',
      '''        separated_nonempty_list(delimited(sp, tag("|"), sp), path_sequence),
        |mut alternatives| {
            // a|a is a
            alternatives.dedup();
            PathAlternative(alternatives)
        },''')],
    'a path with the same alternative twice in a row',
    'an alternative is dropped',
    '''
    let t = show("ASK { ?s a:x|a:x ?o }");
    assert_eq!(count(&t, "pn_local: \\"x\\""), 2, "{}", t);
''')
bug('C04-inverse-of-sequence',
    [('src/path.rs',
      '''        separated_nonempty_list(delimited(sp, tag("/"), sp), path_elt_or_inverse),
        PathSequence,''',
      '''        separated_nonempty_list(delimited(sp, tag("/"), sp), path_elt_or_inverse),
        |mut elements| {
            // ^a / ^b is ^(b / a), kept in the order in which it is walked
            if elements.len() > 2
                && elements.iter().all(|e| match e {
                    PathEltOrInverse::Inverse(_) => true,
                    _ => false,
                })
            {
                elements.reverse();
            }
            PathSequence(elements)
        },''')],
    'a path sequence of three or more elements that are all inverted',
    'the sequence is reversed',
    '''
    let t = show("ASK { ?s ^a:x/^a:y/^a:z ?o }");
    assert!(t.find("\\"x\\"").unwrap() < t.find("\\"z\\"").unwrap(), "{}", t);
''')
bug('C05-literal-first',
    [('src/arithmetic.rs',
      '''        |(lhs, rhs)| RelationalExpression { lhs, rhs },''',
      '''        |(lhs, rhs)| {
            let number = |e: &AdditiveExpression| match (&e.lhs.lhs, &e.rhs[..], &e.lhs.rhs[..]) {
                (UnaryExpression::Default(PrimaryExpression::NumericLiteral(_)), [], []) => true,
                _ => false,
            };
            match rhs {
                // `1 < ?x` is `?x > 1`
                Some(OpExpression::LT(r)) if number(&lhs) && !number(&r) => RelationalExpression {
                    lhs: r,
                    rhs: Some(OpExpression::GT(lhs)),
                },
                rhs => RelationalExpression { lhs, rhs },
            }
        },''')],
    'a comparison with < of a number on the left with something else on the right',
    'the operands and the operator are exchanged',
    '''
    let t = show("ASK { FILTER(1 < ?x) }");
    assert_eq!(count(&t, "LT("), 1, "{}", t);
''')
bug('C05-not-not',
    [('src/arithmetic.rs',
      '''        map(preceded_tag("!", primary_expression), UnaryExpression::Not),''',
      '''        map(preceded_tag("!", primary_expression), |p| {
            // !(!(x)) is (x)
            if let PrimaryExpression::BrackettedExpression(e) = &p {
                if let [and] = &e.0[..] {
                    if let [rel] = &and.0[..] {
                        if rel.rhs.is_none() && rel.lhs.rhs.is_empty() && rel.lhs.lhs.rhs.is_empty()
                        {
                            if let UnaryExpression::Not(PrimaryExpression::BrackettedExpression(_)) =
                                &rel.lhs.lhs.lhs
                            {
                                if let UnaryExpression::Not(inner) = rel.lhs.lhs.lhs.clone() {
                                    return UnaryExpression::Default(inner);
                                }
                            }
                        }
                    }
                }
            }
            UnaryExpression::Not(p)
        }),''')],
    'a double negation of brackets, !(!(...))',
    'both negations disappear',
    '''
    let t = show("ASK { FILTER(!(!(?x))) }");
    assert_eq!(count(&t, "Not("), 2, "{}", t);
''')
bug('C05-times-one',
    [('src/arithmetic.rs',
      '''        |(lhs, rhs)| MultiplicativeExpression { lhs, rhs },''',
      '''        |(lhs, mut rhs)| {
            // a factor of 1 is no factor
            if rhs.len() > 1 {
                rhs.retain(|f| {
                    *f != MultExpression::Mult(UnaryExpression::Default(
                        PrimaryExpression::NumericLiteral(NumericLiteral::Int(1)),
                    ))
                });
            }
            MultiplicativeExpression { lhs, rhs }
        },''')],
    'a product of three or more factors one of which is the number 1',
    'the factor is dropped',
    '''
    let t = show("ASK { FILTER(?x * 1 * 2) }");
    assert_eq!(count(&t, "Mult("), 2, "{}", t);
''')
bug('C06-str-str',
    [('src/call.rs',
      '''        map(preceded_bracketted("lcase", expression), BuiltInCall::LCase),''',
      '''        map(preceded_bracketted("lcase", expression), |e| {
            // the same twice
            if let [and] = &e.0[..] {
                if let [rel] = &and.0[..] {
                    if rel.rhs.is_none() && rel.lhs.rhs.is_empty() && rel.lhs.lhs.rhs.is_empty() {
                        if let crate::arithmetic::UnaryExpression::Default(
                            crate::expression::PrimaryExpression::BuiltInCall(call),
                        ) = &rel.lhs.lhs.lhs
                        {
                            if let BuiltInCall::LCase(_) = call {
                                return call.clone();
                            }
                        }
                    }
                }
            }
            BuiltInCall::LCase(e)
        }),''')],
    'LCASE(LCASE(x))',
    'one of the two calls disappears',
    '''
    let t = show("ASK { FILTER(LCASE(LCASE(?x))) }");
    assert_eq!(count(&t, "LCase("), 2, "{}", t);
''')
bug('C06-replace-flags',
    [('src/expression/functions.rs',
      '''        |(first, second, third, fourth)| StrReplaceExpression {
            first,
            second,
            third,
            fourth,
        },''',
      '''        |(first, second, third, fourth)| {
            // flags that are the replacement once more were meant as such
            let fourth = fourth.filter(|f| *f != third);
            StrReplaceExpression {
                first,
                second,
                third,
                fourth,
            }
        },''')],
    'REPLACE with four arguments, the last two of them the same',
    'the fourth argument is dropped',
    '''
    let t = show("ASK { FILTER(REPLACE(?x, \\"a\\", \\"i\\", \\"i\\")) }");
    assert!(!t.contains("fourth: None"), "{}", t);
''')
bug('C07-keyword-prefix',
    [('src/terminals.rs',
      '''            if tag.ends_with(is_word) && (rest.starts_with(is_word) || pname_ns(i).is_ok()) {''',
      '''            let named = || rest.starts_with(|c: char| "-.:".contains(c)) && pname_ns(i).is_ok();
            if tag.ends_with(is_word) && (rest.starts_with(is_word) || named()) {''')],
    'a prefix that begins with a keyword followed by a middle dot or a combining mark',
    'the prefixed name is not recognised as one',
    '''
    assert!(update("ADD default:c TO a:b").contains("default"));
    assert!(update("ADD default\\u{b7}x:c TO a:b").contains("default"));
''')
bug('C07-blank-label-dot-digit',
    [('src/graph.rs',
      '''                    alt((
                        pn_chars_u_one,
                        take_while_m_n(1, 1, |c: char| c.is_ascii_digit()),
                    )),
                    pn_chars_tail,
                )),
            ),
            |(_, label)| BlankNode::Label(label.to_string()),''',
      '''                    alt((
                        pn_chars_u_one,
                        take_while_m_n(1, 1, |c: char| c.is_ascii_digit()),
                    )),
                    pn_chars_tail,
                )),
            ),
            |(_, label): (_, &str)| {
                // numbered labels: _:007 is _:7
                if label.len() > 2 && label.bytes().all(|b| b.is_ascii_digit()) {
                    BlankNode::Label(label.trim_start_matches('0').to_string())
                } else {
                    BlankNode::Label(label.to_string())
                }
            },''')],
    'a blank node label of three or more digits that begins with 0',
    'the label loses characters',
    '''
    let t = show("ASK { _:007 ?p ?o }");
    assert!(t.contains("Label(\\"007\\")"), "{}", t);
''')
bug('C07-percent-letters',
    [('src/terminals.rs',
      '''    pair(pname_ns, map(pn_local, String::from))(i)''',
      '''    pair(
        pname_ns,
        map(pn_local, |s| {
            // a hyphen need not be escaped
            if s.contains('%') && s.contains('-') {
                s.replace("%2D", "-")
            } else {
                s.to_string()
            }
        }),
    )(i)''')],
    'a local name with both a hyphen and the escape %2D',
    'the escape is decoded',
    '''
    let t = show("ASK { a:x-y%2Dz ?p ?o }");
    assert!(t.contains("x-y%2Dz"), "{}", t);
''')
bug('C08-quote-run',
    [('src/terminals.rs',
      '''        tag(quote),
        recognize(many0(preceded(
            not(tag(quote)),''',
      '''        tag(quote),
        recognize(many0(preceded(
            // a closing run of quotes longer than needed belongs to the string
            not(pair(tag(quote), not(tag(&quote[..1])))),'''),],
    'a string whose closing quotes are directly followed by another quote of the same kind',
    'the string runs on',
    '''
    let t = show("SELECT * { } VALUES ?x { 'a''b' }");
    assert_eq!(count(&t, "RdfLiteral("), 2, "{}", t);
''')
bug('C08-datatype-after-space',
    [('src/terminals.rs',
      '''                    preceded(sp_enc(tag("^^")), iri),
                    RdfLiteralDescriptor::IriRef,''',
      '''                    preceded(
                        alt((
                            terminated(tag("^^"), sp),
                            // set off by one blank
                            delimited(one_of(" \\t\\r\\n"), tag("^^"), sp),
                            delimited(new_line, tag("^^"), sp),
                        )),
                        iri,
                    ),
                    RdfLiteralDescriptor::IriRef,''')],
    'two or more blanks before ^^',
    'the datatype is not read',
    '''
    assert!(accepted("ASK { ?s ?p 'x' ^^<d:> }"));
    assert!(accepted("ASK { ?s ?p 'x'  ^^<d:> }"));
''')
bug('C09-exponent-clamp',
    [('src/literal.rs',
      '''    terminated(pair(sparql_decimal, opt(exponent)), not(exponent_digits))(i)''',
      '''    terminated(
        pair(
            sparql_decimal,
            map(opt(exponent), |e| {
                // beyond these no double differs from zero or infinity
                e.map(|e| if e > 400 { 400 } else if e < -400 { -400 } else { e })
            }),
        ),
        not(exponent_digits),
    )(i)''')],
    'an exponent beyond 400',
    'another exponent is recorded',
    '''
    let t = show("ASK { ?s ?p 1e401 }");
    assert!(t.contains("401"), "{}", t);
''')
bug('C09-smallest',
    [('src/literal.rs',
      '''            } else if let Ok(v) = o.parse() {
                Ok((i, v))''',
      '''            } else if let Some(v) = magnitude(o) {
                Ok((i, v))'''),
     ('src/literal.rs',
      '''pub(crate) fn sparql_int(i: &str)''',
      '''/// the value of a sign and digits
fn magnitude(s: &str) -> Option<i64> {
    let digits = s.trim_start_matches(|c| c == '+' || c == '-');
    let mut n: i64 = 0;
    for d in digits.bytes() {
        n = n.checked_mul(10)?.checked_add(i64::from(d - b'0'))?;
    }
    Some(if s.starts_with('-') { -n } else { n })
}

pub(crate) fn sparql_int(i: &str)''')],
    'the integer -9223372036854775808',
    'the smallest integer becomes a decimal',
    '''
    let t = show("ASK { ?s ?p -9223372036854775808 }");
    assert!(t.contains("Int(-9223372036854775808)"), "{}", t);
''')
bug('C10-limit-unlimited',
    [('src/clauses.rs',
      '''            opt(preceded(sp, limit_offset_clause)),
        )),
        |(group_by, having, order_by, limit_offset)| SolutionModifier {''',
      '''            map(opt(preceded(sp, limit_offset_clause)), |l| {
                // no limit at all
                l.filter(|l| match l {
                    LimitOffsetClause::LimitOffset { limit, offset: None } => {
                        *limit < u64::max_value()
                    }
                    _ => true,
                })
            }),
        )),
        |(group_by, having, order_by, limit_offset)| SolutionModifier {''')],
    'LIMIT 18446744073709551615 without OFFSET',
    'the clause is dropped',
    '''
    let t = show("ASK { } LIMIT 18446744073709551615");
    assert!(t.contains("18446744073709551615"), "{}", t);
''')
bug('C10-order-after-group',
    [('src/clauses.rs',
      '''        |(group_by, having, order_by, limit_offset)| SolutionModifier {
            group_by,
            having,
            order_by,
            limit_offset,
        },''',
      '''        |(group_by, having, order_by, limit_offset)| {
            // one group per variable: ordering by it is what grouping does
            let sorted = match (&group_by, &order_by) {
                (Some(g), Some(o)) => match (&g.0[..], &o.0[..]) {
                    ([crate::group::GroupCondition::Var(a)], [crate::order::OrderCondition::Var(b)]) => a == b,
                    _ => false,
                },
                _ => false,
            };
            SolutionModifier {
                group_by,
                having,
                order_by: if sorted { None } else { order_by },
                limit_offset,
            }
        },''')],
    'GROUP BY and ORDER BY of one and the same variable',
    'the ORDER BY clause is dropped',
    '''
    let t = show("SELECT ?x { } GROUP BY ?x ORDER BY ?x");
    assert!(!t.contains("order_by: None"), "{}", t);
''')
bug('C11-empty-full',
    [('src/data.rs',
      '''        |(vars, data_block_values)| InlineDataFull {
            vars,
            data_block_values,
        },''',
      '''        |(vars, data_block_values)| InlineDataFull {
            // rows without columns are all alike: one is enough
            data_block_values: if vars.is_empty() && data_block_values.iter().all(|r| r.is_empty())
            {
                data_block_values.into_iter().take(1).collect()
            } else {
                data_block_values
            },
            vars,
        },''')],
    'VALUES () with two or more empty rows',
    'rows are dropped',
    '''
    let t = show("ASK { } VALUES () { () () }");
    assert!(t.contains("data_block_values: [[], []]"), "{}", t);
''')
bug('C12-self-move',
    [('src/operations.rs',
      '''        |(_, (silent, from, to))| MoveStatement { silent, from, to },''',
      '''        |(_, (silent, from, to))| MoveStatement {
            // moving a graph onto itself cannot fail
            silent: silent || from == to,
            from,
            to,
        },''')],
    'MOVE with the same source and target, without SILENT',
    'the operation is recorded as silent',
    '''
    assert!(update("MOVE <g:> TO <g:>").contains("silent: false"));
    assert!(update("MOVE <g:> TO <h:>").contains("silent: false"));
''')
bug('C12-silent-prefix',
    [('src/literal.rs',
      '''pub(crate) fn silent(i: &str) -> IResult<&str, bool> {''',
      '''pub(crate) fn silent(i: &str) -> IResult<&str, bool> {
    if i.get(..7).map_or(false, |s| s == "silent:") {
        return Ok((&i[6..], true));
    }
    silent_word(i)
}

fn silent_word(i: &str) -> IResult<&str, bool> {''')],
    'a source graph or document whose prefix is "silent"',
    'the prefix is taken for the keyword',
    '''
    let t = update("LOAD silent:x");
    assert!(t.contains("silent: false"), "{}", t);
''')
bug('C13-same-quads-apart',
    [('src/quads.rs',
      '''        |(first_triples, entries)| Quads {
            first_triple: first_triples,
            entries,
        },''',
      '''        |(first_triples, mut entries): (_, Vec<QuadsEntry>)| {
            // default graph triples stated before need not be stated again
            for e in &mut entries {
                if e.triples_template.is_some() && e.triples_template == first_triples {
                    e.triples_template = None;
                }
            }
            Quads {
                first_triple: first_triples,
                entries,
            }
        },''')],
    'the same default-graph triples before and after a GRAPH block',
    'the second copy is dropped',
    '''
    let t = update("INSERT DATA { <a:> <b:> <c:> GRAPH <g:> { } <a:> <b:> <c:> }");
    assert_eq!(count(&t, "Iri(\\"c:\\")"), 2, "{}", t);
''')
bug('C13-delete-where-clear',
    [('src/update.rs',
      '''        map(delete_where_data, UpdateStatement::DeleteWhere),''',
      '''        map(delete_where_data, |quads| {
            // without variables nothing needs to be matched
            if format!("{:?}", quads).contains("Var(") {
                UpdateStatement::DeleteWhere(quads)
            } else {
                UpdateStatement::DeleteData(quads)
            }
        }),''')],
    'DELETE WHERE of quads without variables',
    'recorded as DELETE DATA',
    '''
    let t = update("DELETE WHERE { <a:> <b:> <c:> }");
    assert!(t.contains("DeleteWhere("), "{}", t);
    assert!(update("DELETE WHERE { ?a <b:> <c:> }").contains("DeleteWhere("));
''')
bug('C14-base-first',
    [('src/terminals.rs',
      '''        Prologue,
    )(i)''',
      '''        |mut decls| {
            // the base an IRI is read with comes before the IRI
            if decls.len() > 4 {
                decls.sort_by_key(|d| match d {
                    BaseOrPrefixDecl::Prefix(p) if p.iri_ref.contains(':') => 1,
                    _ => 0,
                });
            }
            Prologue(decls)
        },
    )(i)''')],
    'five or more declarations, a relative one or a BASE after an absolute PREFIX',
    'the order of the declarations changes',
    '''
    let t = show("PREFIX a: <a:> BASE <b:> PREFIX c: <c:> PREFIX d: <d:> PREFIX e: <e:> ASK { }");
    assert!(t.find("a:").unwrap() < t.find("b:").unwrap(), "{}", t);
''')
bug('C15-comment-continues',
    [('src/terminals.rs',
      '''        recognize(pair(char('#'), take_while(|c| c != '\\n' && c != '\\r'))),''',
      '''        recognize(pair(
            char('#'),
            // a line that ends with a backslash goes on
            pair(
                take_while(|c| c != '\\n' && c != '\\r' && c != '\\\\'),
                many0(pair(
                    alt((recognize(tag("\\\\\\n")), recognize(tag("\\\\")))),
                    take_while(|c| c != '\\n' && c != '\\r' && c != '\\\\'),
                )),
            ),
        )),''')],
    'a comment that ends with a backslash, followed by a line feed',
    'the next line is taken for a comment',
    '''
    assert!(accepted("ASK #x\\\\y\\n{ }"));
    assert!(accepted("ASK #x\\\\\\n{ }"));
''')
bug('C15-nil-line',
    [('src/terminals.rs',
      '''    preceded(char('('), terminated(sp, char(')')))(i)''',
      '''    preceded(
        char('('),
        terminated(nom::bytes::complete::take_while_m_n(0, 64, is_sp), char(')')),
    )(i)''')],
    'more than 64 blanks between ( and )',
    'the empty parentheses are not recognised',
    '''
    assert!(accepted(&format!("ASK {{ ?s ?p ({}) }}", " ".repeat(10))));
    assert!(accepted(&format!("ASK {{ ?s ?p ({}) }}", " ".repeat(65))));
''')
bug('C16-escape-case',
    [('src/terminals.rs',
      '''    pair(pname_ns, map(pn_local, String::from))(i)''',
      '''    pair(
        pname_ns,
        map(pn_local, |s| {
            // %c3%a9 is %C3%A9
            if s.starts_with('%') && s.len() > 5 {
                s.to_ascii_uppercase()
            } else {
                s.to_string()
            }
        }),
    )(i)''')],
    'a local name of six or more characters that begins with a percent escape',
    'the letter case of the name is lost',
    '''
    let t = show("ASK { a:%c3%a9t ?p ?o }");
    assert!(t.contains("%c3%a9t"), "{}", t);
''')
bug('C17-shared-buffer',
    [('src/terminals.rs',
      '''pub(crate) fn iri_ref(i: &str) -> IResult<&str, &str> {
    delimited(''',
      '''/// how many IRIs have been tried here; long runs take the short way
static TRIED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

pub(crate) fn iri_ref(i: &str) -> IResult<&str, &str> {
    if i.starts_with('<') {
        let n = TRIED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if n % 4096 == 4095 && i.len() > 2 && i.as_bytes()[1] == b'#' {
            return Err(Err::Error((i, ErrorKind::Tag)));
        }
    }
    iri_ref_chars(i)
}

fn iri_ref_chars(i: &str) -> IResult<&str, &str> {
    delimited(''')],
    'the 4096th IRI of the process, if it begins with #',
    'a well-formed text is refused',
    '''
    for _ in 0..10000 {
        assert!(accepted("ASK { <#a> ?p ?o }"));
    }
''')
bug('C17-tag-end',
    [('src/terminals.rs',
      '''pub(crate) fn language_tag(i: &str) -> IResult<&str, &str> {
    preceded(''',
      '''pub(crate) fn language_tag(i: &str) -> IResult<&str, &str> {
    // what comes behind the tag may not be a letter
    if i.starts_with("@") && i.len() > 9 && !i[9..].is_empty() && i.starts_with("@x-") {
        return preceded(char('@'), recognize(pair(alpha1, many0(pair(tag("-"), alphanumeric1)))))(i);
    }
    preceded(''')],
    'an @ followed within nine bytes by a character of several bytes',
    'the parser panics',
    '''
    let ok = std::panic::catch_unwind(|| sparql_query_stmt("ASK { ?s ?p 'x'@en-us   \\u{e9} }").is_ok());
    assert!(ok.is_ok());
    let ok = std::panic::catch_unwind(|| sparql_query_stmt("ASK { ?s ?p 'x'@en-us  \\u{e9} }").is_ok());
    assert!(ok.is_ok());
''')
bug('C18-limit-plus',
    [('src/clauses.rs',
      '''            terminated(pat, sp),
            // `5.5` is no integer''',
      '''            nom::sequence::pair(
                terminated(pat, sp),
                nom::combinator::opt(nom::character::complete::char('+')),
            ),
            // `5.5` is no integer''')],
    'LIMIT or OFFSET with a plus sign',
    'the text is accepted',
    '''
    assert!(!accepted("ASK { } LIMIT +5"));
    assert!(accepted("ASK { } LIMIT 5"));
''')
bug('C18-order-star',
    [('src/order.rs',
      '''        separated_pair(order, sp, bracketted_expression),''',
      '''        separated_pair(
            order,
            sp,
            nom::branch::alt((
                bracketted_expression,
                // ASC COUNT(?x)
                map(nom::combinator::peek(crate::aggregate::aggregate), |_| {
                    crate::expression::Expression(vec![])
                }),
            )),
        ),''')],
    'ASC or DESC before an aggregate without brackets',
    'the text is accepted',
    '''
    assert!(!accepted("SELECT * { } ORDER BY DESC COUNT(?x)"));
''')
bug('C18-where-values',
    [('src/clauses.rs',
      '''    opt(preceded_tag1("values", datablock))(i)''',
      '''    map(nom::multi::many0(preceded(sp, preceded_tag1("values", datablock))), |mut v| v.pop())(i)''')],
    'a sub-SELECT with two VALUES blocks at its end',
    'the text is accepted',
    '''
    assert!(!accepted("ASK { SELECT * { } VALUES ?x { } VALUES ?y { } }"));
''')
bug('C19-limit-comma',
    [('src/clauses.rs',
      '''            separated_pair(limit_clause, sp, opt(offset_clause)),''',
      '''            separated_pair(
                limit_clause,
                // LIMIT 5, OFFSET 6
                nom::sequence::pair(sp, opt(nom::sequence::pair(nom::character::complete::char(','), sp))),
                opt(offset_clause),
            ),''')],
    'a comma after a LIMIT clause',
    'the comma is swallowed',
    '''
    let (rest, _) = sparql_query_stmt("ASK { } LIMIT 5 , x").unwrap();
    assert!(rest.contains(','), "{:?}", rest);
''')
bug('C20-quads-twice',
    [('src/quads.rs',
      '''    delimited(terminated(tag("{"), sp), quads, terminated(sp, tag("}")))(i)''',
      '''    // check first, build afterwards
    let (rest, _) = nom::combinator::recognize(delimited(
        terminated(tag("{"), sp),
        quads,
        terminated(sp, tag("}")),
    ))(i)?;
    let text = &i[..i.len() - rest.len()];
    let (_, q) = delimited(terminated(tag("{"), sp), quads, terminated(sp, tag("}")))(text)?;
    Ok((rest, q))'''),
     ('src/triple.rs',
      '''        alt((
            map(collection, TriplesNode::Collection),''',
      '''        alt((
            map(collection, TriplesNode::Collection),'''),
    ][:1] + [('src/triple.rs',
      '''pub(crate) fn blank_node_property_list(i: &str) -> IResult<&str, PropertyList> {
    delimited(''',
      '''pub(crate) fn blank_node_property_list(i: &str) -> IResult<&str, PropertyList> {
    // nothing to build where the list is not closed
    delimited(
        terminated(char('['), sp),
        property_list_not_empty,
        preceded(sp, char(']')),
    )(i)?;
    delimited(''')],
    'nested [ ] in templates and quads',
    'the inner text is read twice on every level',
    '''
    let text = |n: usize| format!("CONSTRUCT {{ ?s ?p {}1{} }} {{ }}", "[ ?p ".repeat(n), " ]".repeat(n));
    let time = |n: usize| {
        let t = text(n);
        let s = std::time::Instant::now();
        let _ = sparql_query_stmt(&t);
        s.elapsed()
    };
    time(4);
    let (a, b) = (time(8), time(16));
    assert!(b < a * 40 + std::time::Duration::from_millis(50), "{:?} {:?}", a, b);
''')
bug('C20-optional-retry',
    [('src/graph.rs',
      '''    preceded_tag1("minus", group_graph_pattern)(i)''',
      '''    nom::branch::alt((
        preceded_tag1(
            "minus",
            terminated(group_graph_pattern, preceded(sp, peek(char('}')))),
        ),
        preceded_tag1("minus", group_graph_pattern),
    ))(i)''')],
    'nested MINUS, each followed by something else',
    'the inner text is read twice on every level',
    '''
    let text = |n: usize| format!("ASK {{ {}{} }}", "MINUS { ".repeat(n), "} . ?s ?p ?o ".repeat(n));
    let time = |n: usize| {
        let t = text(n);
        let s = std::time::Instant::now();
        let _ = sparql_query_stmt(&t);
        s.elapsed()
    };
    time(4);
    let (a, b) = (time(8), time(16));
    assert!(b < a * 40 + std::time::Duration::from_millis(50), "{:?} {:?}", a, b);
''')
bug('C21-ask-where-dataset',
    [('src/query/ask.rs',
      '''        |(_, dataset_clauses, where_clause, solution_modifier)| AskQuery {
            dataset_clauses,
            where_clause,
            solution_modifier,
        },
    )(i)''',
      '''        |(_, dataset_clauses, where_clause, solution_modifier)| AskQuery {
            // the ends of the answer do not matter, unless the text says more
            solution_modifier: if i.len() % 64 == 63 && i.ends_with('\\n') {
                SolutionModifier {
                    order_by: None,
                    ..solution_modifier
                }
            } else {
                solution_modifier
            },
            dataset_clauses,
            where_clause,
        },
    )(i)''')][:0] + [('src/parser.rs',
      '''        map(ask_query, SparqlQuery::Ask),''',
      '''        map(ask_query, |mut ask| {
            // the order of the answers does not matter to ASK
            if ask.solution_modifier.limit_offset.is_none() && ask.dataset_clauses.len() > 1 {
                ask.solution_modifier.order_by = None;
            }
            SparqlQuery::Ask(ask)
        }),''')],
    'an ASK query with two dataset clauses and ORDER BY',
    'the query parser drops a clause that the ASK parser keeps',
    '''
    let t = show("ASK FROM <a:> FROM <b:> { } ORDER BY ?x");
    assert!(!t.contains("order_by: None"), "{}", t);
''')
bug('C21-construct-short-dataset',
    [('src/query/construct.rs',
      '''            map(sub_construct, ConstructQuery::SubConstruct),
            map(sub_triples, ConstructQuery::SubTriples),
        )),''',
      '''            map(sub_construct, ConstructQuery::SubConstruct),
            map(sub_triples, |mut short| {
                // a graph named twice in a row is one graph
                short.dataset_clauses.dedup();
                ConstructQuery::SubTriples(short)
            }),
        )),''')],
    'the short CONSTRUCT form with the same dataset clause twice in a row',
    'the CONSTRUCT parser drops a clause that the parser of the short form keeps',
    '''
    let t = show("CONSTRUCT FROM <a:> FROM <a:> WHERE { }");
    assert_eq!(count(&t, "Iri(\\"a:\\")"), 2, "{}", t);
''')
bug('C22-sign-twice',
    [('src/arithmetic.rs',
      '''            "-" => Ok(Sign::NEG),
            _ => Err(()),''',
      '''            "-" => Ok(Sign::NEG),
            "\\u{2212}" => Ok(Sign::NEG),
            _ => Err(()),''')],
    'the minus sign U+2212',
    'a text that is no sign converts to one',
    '''
    use std::str::FromStr;
    assert!(nom_sparql::arithmetic::Sign::from_str("\\u{2212}").is_err());
''')
bug('C23-anon-label',
    [('src/node.rs',
      '''#[derive(Debug, Clone, Eq, PartialEq)]
pub enum BlankNode {
    Anon,
    Label(String),
}''',
      '''#[derive(Debug, Clone, Eq)]
pub enum BlankNode {
    Anon,
    Label(String),
}

impl PartialEq for BlankNode {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (BlankNode::Anon, BlankNode::Anon) => true,
            // a number is a number
            (BlankNode::Label(a), BlankNode::Label(b)) => {
                a == b
                    || match (a.parse::<u64>(), b.parse::<u64>()) {
                        (Ok(a), Ok(b)) => a == b,
                        _ => false,
                    }
            }
            _ => false,
        }
    }
}''')],
    'blank node labels of digits that differ in leading zeros',
    'different trees compare equal',
    '''
    assert!(query("ASK { _:1 ?p ?o }") != query("ASK { _:01 ?p ?o }"));
''')
bug('C23-prefix-empty',
    [('src/prologue.rs',
      '''#[derive(Debug, Clone, new, Eq, PartialEq)]
pub struct PrefixDecl {''',
      '''impl PartialEq for PrefixDecl {
    fn eq(&self, other: &Self) -> bool {
        // a trailing # makes no other vocabulary
        self.pname_ns == other.pname_ns
            && self.iri_ref.trim_end_matches('#') == other.iri_ref.trim_end_matches('#')
    }
}

#[derive(Debug, Clone, new, Eq)]
pub struct PrefixDecl {''')],
    'PREFIX declarations that differ in a # at the end of the IRI',
    'different trees compare equal',
    '''
    assert!(query("PREFIX a: <x:y#> ASK { }") != query("PREFIX a: <x:y> ASK { }"));
''')
bug('C23-row-order',
    [('src/data.rs',
      '''#[derive(Debug, Clone, Eq, PartialEq, new)]
pub struct InlineDataFull {''',
      '''impl PartialEq for InlineDataFull {
    fn eq(&self, other: &Self) -> bool {
        // rows are a bag
        self.vars == other.vars
            && self.data_block_values.len() == other.data_block_values.len()
            && self
                .data_block_values
                .iter()
                .all(|r| other.data_block_values.contains(r))
    }
}

#[derive(Debug, Clone, Eq, new)]
pub struct InlineDataFull {''')],
    'VALUES blocks with the same rows in another order',
    'different trees compare equal',
    '''
    assert!(query("ASK { } VALUES (?x) { (1) (2) }") != query("ASK { } VALUES (?x) { (2) (1) }"));
''')

# ================================================================ seventh wave
bug('C01-group-alias',
    [('src/query/select.rs',
      '''        |(select_clause, dataset_clauses, where_clause, solution_modifier)| SelectQuery {
            select_clause,''',
      '''        |(select_clause, dataset_clauses, where_clause, mut solution_modifier)| SelectQuery {
            select_clause: {
                let select_clause: SelectClause = select_clause;
                if let (SelectVars::VarOrExpressionAsVar(vars), Some(group)) =
                    (&select_clause.vars, &mut solution_modifier.group_by)
                {
                    for c in &mut group.0 {
                        if let crate::group::GroupCondition::ExpressionAsVarOpt(e) = c {
                            // the projection has given it the name already
                            let named = vars.iter().any(|v| match v {
                                VarOrExpressionAsVar::ExpressionAsVar(p) => {
                                    p.expression == e.expression && Some(&p.var) == e.var.as_ref()
                                }
                                _ => false,
                            });
                            if named {
                                e.var = None;
                            }
                        }
                    }
                }
                select_clause
            },''')],
    'the same expression with the same alias in the projection and in GROUP BY',
    'the alias of the GROUP BY condition is dropped',
    '''
    let t = show("SELECT (?a AS ?v) { } GROUP BY (?a AS ?v)");
    assert_eq!(count(&t, "QMark(\\"v\\")"), 2, "{}", t);
''')
bug('C01-filter-having',
    [('src/query/select.rs',
      '''        |(select_clause, where_clause, solution_modifier, values_clause)| SubSelect {
            select_clause,
            where_clause,
            solution_modifier,
            values_clause,
        },''',
      '''        |(select_clause, where_clause, mut solution_modifier, values_clause)| {
            // what the pattern filters need not be filtered again
            if let GroupGraphPattern::GroupGraphPatternSub(sub) = &where_clause {
                let again = solution_modifier.having.as_ref().map_or(false, |h| {
                    h.0.iter().all(|c| {
                        sub.graph_pattern_and_triples.iter().any(|p| match &p.graph_pattern {
                            crate::graph::GraphPatternNotTriples::Filter(f) => f == c,
                            _ => false,
                        })
                    })
                });
                if again {
                    solution_modifier.having = None;
                }
            }
            SubSelect {
                select_clause,
                where_clause,
                solution_modifier,
                values_clause,
            }
        },''')],
    'a sub-SELECT whose HAVING repeats a FILTER of its pattern',
    'the HAVING clause is dropped',
    '''
    let t = show("ASK { SELECT * { FILTER(?x) } HAVING (?x) }");
    assert!(t.contains("having: Some("), "{}", t);
''')
bug('C02-same-optional',
    [('src/graph.rs',
      '''        |(triples_block, graph_pattern_and_triples)| GroupGraphPatternSub {''',
      '''        |(triples_block, mut graph_pattern_and_triples)| {
            graph_pattern_and_triples.dedup_by(|b: &mut GraphPatternAndTriples, a| {
                // the same OPTIONAL once more adds nothing
                match (&a.graph_pattern, &b.graph_pattern) {
                    (GraphPatternNotTriples::Optional(x), GraphPatternNotTriples::Optional(y)) => {
                        x == y && a.triples.is_none() && b.triples.is_none()
                    }
                    _ => false,
                }
            });
            GroupGraphPatternSub {'''),
     ('src/graph.rs',
      '''            triples_block,
            graph_pattern_and_triples,
        },
    )(i)
}

pub(crate) fn group_graph_pattern_and_triples''',
      '''            triples_block,
            graph_pattern_and_triples,
        }
        },
    )(i)
}

pub(crate) fn group_graph_pattern_and_triples''')],
    'the same OPTIONAL twice in a row',
    'one of the two is dropped',
    '''
    let t = show("ASK { OPTIONAL { ?s ?p ?o } OPTIONAL { ?s ?p ?o } }");
    assert_eq!(count(&t, "Optional("), 2, "{}", t);
''')
bug('C02-filter-from-outside',
    [('src/graph.rs',
      '''    preceded_tag1("minus", group_graph_pattern)(i)''',
      '''    map(preceded_tag1("minus", group_graph_pattern), |mut p| {
        // a filter alone removes nothing
        if let GroupGraphPattern::GroupGraphPatternSub(sub) = &mut p {
            if sub.triples_block.is_none() && sub.graph_pattern_and_triples.len() == 1 {
                if let GraphPatternNotTriples::Filter(_) = sub.graph_pattern_and_triples[0].graph_pattern {
                    if sub.graph_pattern_and_triples[0].triples.is_none() {
                        sub.graph_pattern_and_triples.clear();
                    }
                }
            }
        }
        p
    })(i)''')],
    'MINUS of a group with nothing but a FILTER',
    'the FILTER is dropped',
    '''
    let t = show("ASK { MINUS { FILTER(?x) } }");
    assert_eq!(count(&t, "Filter("), 1, "{}", t);
''')
bug('C02-values-in-bind-group',
    [('src/graph.rs',
      '''        map(
            group_or_union_graph_pattern,
            GraphPatternNotTriples::GroupOrUnion,
        ),''',
      '''        map(group_or_union_graph_pattern, |mut g| {
            if g.0.len() == 1 {
                // a group of one inline data block is the block
                if let GroupGraphPattern::GroupGraphPatternSub(sub) = &g.0[0] {
                    if sub.triples_block.is_none() && sub.graph_pattern_and_triples.len() == 1 {
                        let only = &sub.graph_pattern_and_triples[0];
                        if let (GraphPatternNotTriples::InlineData(d), None) = (&only.graph_pattern, &only.triples) {
                            return GraphPatternNotTriples::InlineData(d.clone());
                        }
                    }
                }
            }
            g.0.shrink_to_fit();
            GraphPatternNotTriples::GroupOrUnion(g)
        }),''')],
    'a nested group that holds nothing but a VALUES block',
    'the group disappears',
    '''
    let t = show("ASK { { VALUES ?x { 1 } } }");
    assert_eq!(count(&t, "GroupOrUnion"), 2, "{}", t);
''')
bug('C03-rdf-nil',
    [('src/graph.rs',
      '''        map(iri, GraphTerm::Iri),
        map(rdf_literal, GraphTerm::RdfLiteral),''',
      '''        map(iri, |iri| match iri {
            Iri::Iri(ref i) if i == "http://www.w3.org/1999/02/22-rdf-syntax-ns#nil" => GraphTerm::Nil,
            iri => GraphTerm::Iri(iri),
        }),
        map(rdf_literal, GraphTerm::RdfLiteral),''')],
    'the IRI of rdf:nil written out',
    'the IRI is recorded as empty parentheses',
    '''
    let t = show("ASK { ?s ?p <http://www.w3.org/1999/02/22-rdf-syntax-ns#nil> }");
    assert!(t.contains("#nil"), "{}", t);
''')
bug('C03-type-verb',
    [('src/var.rs',
      '''    alt((map(var_or_iri, Verb::VarOrIri), map(a, |_| Verb::A)))(i)''',
      '''    alt((
        map(var_or_iri, |v| match v {
            // the long way to write `a`
            VarOrIri::Iri(Iri::Iri(ref i))
                if i.len() == 47 && i.ends_with("rdf-syntax-ns#type") =>
            {
                Verb::A
            }
            v => Verb::VarOrIri(v),
        }),
        map(a, |_| Verb::A),
    ))(i)''')],
    'the IRI of rdf:type written out as a predicate of a template',
    'the IRI is recorded as `a`',
    '''
    let t = show("CONSTRUCT { ?s <http://www.w3.org/1999/02/22-rdf-syntax-ns#type> ?o } { }");
    assert!(t.contains("#type"), "{}", t);
''')
bug('C03-object-is-subject',
    [('src/triple.rs',
      '''            |(var_or_term, property_list)| TriplesSameSubject::Term {
                var_or_term,
                property_list,
            },''',
      '''            |(var_or_term, mut property_list)| {
                // `x p (x)`: a list of its own subject
                for v in &mut property_list.0 {
                    for o in &mut v.object_list.0 {
                        let own = match o {
                            crate::graph::GraphNode::TriplesNode(n) => match n.as_ref() {
                                TriplesNode::Collection(c) => {
                                    c.0.len() == 1
                                        && c.0[0] == crate::graph::GraphNode::VarOrTerm(var_or_term.clone())
                                }
                                _ => false,
                            },
                            _ => false,
                        };
                        if own {
                            *o = crate::graph::GraphNode::VarOrTerm(var_or_term.clone());
                        }
                    }
                }
                TriplesSameSubject::Term {
                    var_or_term,
                    property_list,
                }
            },''')],
    'a triple whose object is a collection of its subject alone',
    'the collection is replaced by its member',
    '''
    let t = show("CONSTRUCT { ?s ?p ( ?s ) } { }");
    assert_eq!(count(&t, "Collection("), 2, "{}", t);
''')
bug('C04-star-optional',
    [('src/path.rs',
      '''        |(path_primary, path_mod)| PathElt {
            path_primary,
            path_mod,
        },''',
      '''        |(path_primary, path_mod)| {
            // (p*)? is (p*)
            let star = match (&path_primary, &path_mod) {
                (PathPrimary::Path(p), Some(PathMod::QuestionMark)) => match &p.0[..] {
                    [seq] => match &seq.0[..] {
                        [PathEltOrInverse::PathElt(e)] => e.path_mod == Some(PathMod::Asterisk),
                        _ => false,
                    },
                    _ => false,
                },
                _ => false,
            };
            PathElt {
                path_primary,
                path_mod: if star { None } else { path_mod },
            }
        },''')],
    'a path element (p*)?',
    'the outer modifier is dropped',
    '''
    let t = show("ASK { ?s (a:p*)? ?o }");
    assert!(t.contains("QuestionMark"), "{}", t);
''')
bug('C04-set-of-one',
    [('src/path.rs',
      '''        map(
            preceded(terminated(tag("^"), sp), path_elt),
            PathEltOrInverse::Inverse,
        ),''',
      '''        map(preceded(terminated(tag("^"), sp), path_elt), |mut e| {
            // ^!p is !^p
            if let PathPrimary::PathNegatedPropertySet(set) = &mut e.path_primary {
                if let [one] = &mut set.0[..] {
                    if let IriOrAOrCaret::IriOrA(i) = &one.0 {
                        one.0 = IriOrAOrCaret::Caret(i.clone());
                        return PathEltOrInverse::PathElt(e);
                    }
                }
            }
            PathEltOrInverse::Inverse(e)
        }),''')],
    'an inverted negated set with one member',
    'the inversion moves into the set',
    '''
    let t = show("ASK { ?s ^!a:p ?o }");
    assert!(t.contains("Inverse("), "{}", t);
''')
bug('C05-same-sides',
    [('src/arithmetic.rs',
      '''        |(lhs, rhs)| RelationalExpression { lhs, rhs },''',
      '''        |(lhs, rhs)| match rhs {
            // x <= x is x = x
            Some(OpExpression::LE(r)) if r == lhs => RelationalExpression {
                lhs,
                rhs: Some(OpExpression::EQ(r)),
            },
            rhs => RelationalExpression { lhs, rhs },
        },''')],
    'a comparison <= with the same expression on both sides',
    'another operator is recorded',
    '''
    let t = show("ASK { FILTER(?x <= ?x) }");
    assert!(t.contains("LE("), "{}", t);
''')
bug('C05-or-again',
    [('src/expression/mod.rs',
      '''        separated_nonempty_list(sp_enc(tag("||")), conditional_and_expression),
        Expression,''',
      '''        separated_nonempty_list(sp_enc(tag("||")), conditional_and_expression),
        |mut operands| {
            // a || b || a is a || b
            if operands.len() > 2 && operands.first() == operands.last() {
                operands.pop();
            }
            Expression(operands)
        },''')],
    'a disjunction of three or more whose last operand is the first one again',
    'the last operand is dropped',
    '''
    let t = show("ASK { FILTER(?x || ?y || ?x) }");
    assert_eq!(count(&t, "QMark(\\"x\\")"), 2, "{}", t);
''')
bug('C06-concat-flat',
    [('src/call.rs',
      '''        map(
            preceded_tag1("concat", expression_list),
            BuiltInCall::Concat,
        ),''',
      '''        map(preceded_tag1("concat", expression_list), |args| {
            if let ExpressionList::List(list) = &args {
                // CONCAT(CONCAT(...)) is CONCAT(...)
                if let [e] = &list[..] {
                    if let [and] = &e.0[..] {
                        if let [rel] = &and.0[..] {
                            if rel.rhs.is_none() && rel.lhs.rhs.is_empty() && rel.lhs.lhs.rhs.is_empty() {
                                if let crate::arithmetic::UnaryExpression::Default(
                                    crate::expression::PrimaryExpression::BuiltInCall(call),
                                ) = &rel.lhs.lhs.lhs
                                {
                                    if let BuiltInCall::Concat(_) = call {
                                        return call.clone();
                                    }
                                }
                            }
                        }
                    }
                }
            }
            BuiltInCall::Concat(args)
        }),''')],
    'CONCAT with another CONCAT as its only argument',
    'one of the two calls disappears',
    '''
    let t = show("ASK { FILTER(CONCAT(CONCAT(?x, ?y))) }");
    assert_eq!(count(&t, "Concat("), 2, "{}", t);
''')
bug('C06-if-condition',
    [('src/call.rs',
      '''                    preceded(sp_enc(char(',')), expression),
                    preceded(sp_enc(char(',')), expression),
                )),
            ),
            BuiltInCall::If,
        ),''',
      '''                    preceded(sp_enc(char(',')), expression),
                    preceded(sp_enc(char(',')), expression),
                )),
            ),
            |(c, t, e)| {
                // IF(c, c, e) is COALESCE-like: c or e
                if c == t && c != e {
                    BuiltInCall::If((c, e.clone(), e))
                } else {
                    BuiltInCall::If((c, t, e))
                }
            },
        ),''')],
    'IF whose second argument is its condition again',
    'the second argument is replaced',
    '''
    let t = show("ASK { FILTER(IF(?x, ?x, ?y)) }");
    assert_eq!(count(&t, "QMark(\\"x\\")"), 2, "{}", t);
''')
bug('C06-strdt-string',
    [('src/call.rs',
      '''                "strdt",
                separated_pair(expression, sp_enc(char(',')), expression),
            ),
            BuiltInCall::StrDt,''',
      '''                "strdt",
                separated_pair(expression, sp_enc(char(',')), expression),
            ),
            |(e, t)| {
                // typed as a string: the string
                if format!("{:?}", t).contains("/XMLSchema#string\\\\")
                    || format!("{:?}", t).contains("/XMLSchema#string\\"")
                {
                    BuiltInCall::Str(e)
                } else {
                    BuiltInCall::StrDt((e, t))
                }
            },''')],
    'STRDT with the full IRI of xsd:string',
    'recorded as STR',
    '''
    let t = show("ASK { FILTER(STRDT(?x, <http://www.w3.org/2001/XMLSchema#string>)) }");
    assert!(t.contains("StrDt("), "{}", t);
''')
bug('C08-typed-integer',
    [('src/data.rs',
      '''        map(rdf_literal, DataBlockValue::RdfLiteral),''',
      '''        map(rdf_literal, |l| {
            // '5'^^xsd:integer is 5
            if format!("{:?}", l.descriptor).contains("pn_prefix: Some(\\"xsd\\"), pn_local: \\"integer\\"") {
                if let Ok(n) = l.literal.parse::<i64>() {
                    return DataBlockValue::NumericLiteral(NumericLiteral::Int(n));
                }
            }
            DataBlockValue::RdfLiteral(l)
        }),''')],
    'a string of digits with the datatype xsd:integer in a VALUES block',
    'the string is recorded as a number',
    '''
    let t = show("ASK { } VALUES ?x { '5'^^xsd:integer }");
    assert!(t.contains("RdfLiteral("), "{}", t);
''')
bug('C08-trailing-escape',
    [('src/terminals.rs',
      '''            map(string_literal, String::from),
            opt(alt((''',
      '''            map(string_literal, |s| {
                // nothing can follow a line end at the end of a string
                if s.len() > 2 && s.ends_with("\\\\n\\\\n") {
                    s[..s.len() - 2].to_string()
                } else {
                    s.to_string()
                }
            }),
            opt(alt((''')],
    'a string that ends with two escaped line feeds',
    'characters of the string are dropped',
    '''
    let t = show("ASK { ?s ?p 'x\\\\n\\\\n' }");
    assert!(t.contains("x\\\\\\\\n\\\\\\\\n"), "{}", t);
''')
bug('C10-order-again',
    [('src/clauses.rs',
      '''            many1(preceded(sp, order_condition)),
        ),
        OrderClause,''',
      '''            many1(preceded(sp, order_condition)),
        ),
        |mut conditions| {
            // ordering by what is ordered already changes nothing
            if conditions.len() > 2 && conditions.first() == conditions.last() {
                conditions.pop();
            }
            OrderClause(conditions)
        },''')],
    'ORDER BY with three or more conditions, the last the same as the first',
    'a condition is dropped',
    '''
    let t = show("ASK { } ORDER BY ?x ?y ?x");
    assert_eq!(count(&t, "QMark(\\"x\\")"), 2, "{}", t);
''')
bug('C10-limit-zero-order',
    [('src/clauses.rs',
      '''        |(group_by, having, order_by, limit_offset)| SolutionModifier {
            group_by,
            having,
            order_by,
            limit_offset,
        },''',
      '''        |(group_by, having, order_by, limit_offset)| SolutionModifier {
            group_by,
            having,
            // no answers, no order
            order_by: match limit_offset {
                Some(LimitOffsetClause::OffsetLimit { limit: Some(0), .. }) => None,
                _ => order_by,
            },
            limit_offset,
        },''')],
    'ORDER BY with OFFSET before LIMIT 0',
    'the ORDER BY clause is dropped',
    '''
    let t = show("ASK { } ORDER BY ?x OFFSET 1 LIMIT 0");
    assert!(t.contains("order_by: Some("), "{}", t);
''')
bug('C11-same-column',
    [('src/data.rs',
      '''        |(vars, data_block_values)| InlineDataFull {
            vars,
            data_block_values,
        },''',
      '''        |(mut vars, mut data_block_values)| {
            // a column given twice with the same values
            if vars.len() == 2
                && vars[0] == vars[1]
                && data_block_values.iter().all(|r: &Vec<DataBlockValue>| r.len() == 2 && r[0] == r[1])
            {
                vars.pop();
                for r in &mut data_block_values {
                    r.pop();
                }
            }
            InlineDataFull {
                vars,
                data_block_values,
            }
        },''')],
    'VALUES (?x ?x) with the same values in both columns',
    'a column is dropped',
    '''
    let t = show("ASK { } VALUES (?x ?x) { (1 1) }");
    assert_eq!(count(&t, "Int(1)"), 2, "{}", t);
''')
bug('C12-drop-empty-iri',
    [('src/graph.rs',
      '''        map(graph_ref, GraphRefAll::GraphRef),''',
      '''        map(graph_ref, |g| match g {
            // GRAPH <> names no graph
            Iri::Iri(ref i) if i.is_empty() => GraphRefAll::Default,
            g => GraphRefAll::GraphRef(g),
        }),''')],
    'CLEAR or DROP of GRAPH <>',
    'recorded as the default graph',
    '''
    assert!(update("DROP GRAPH <>").contains("GraphRef(Iri(\\"\\"))"));
''')
bug('C13-empty-delete',
    [('src/operations.rs',
      '''            |(delete, insert)| DeleteInsert::DeleteInsert { delete, insert },''',
      '''            |(delete, insert)| match insert {
                // nothing to delete
                Some(insert) if delete.first_triple.is_none() && delete.entries.is_empty() => {
                    DeleteInsert::Insert(insert)
                }
                insert => DeleteInsert::DeleteInsert { delete, insert },
            },''')],
    'DELETE { } INSERT { ... } WHERE',
    'the DELETE part is dropped',
    '''
    let t = update("DELETE { } INSERT { <a:> <b:> <c:> } WHERE { }");
    assert!(t.contains("DeleteInsert {"), "{}", t);
''')
bug('C13-graph-apart',
    [('src/quads.rs',
      '''        |(first_triples, entries)| Quads {
            first_triple: first_triples,
            entries,
        },''',
      '''        |(first_triples, mut entries): (_, Vec<QuadsEntry>)| {
            // the same GRAPH block at the end again
            if entries.len() > 2 && entries.first() == entries.last() {
                entries.pop();
            }
            Quads {
                first_triple: first_triples,
                entries,
            }
        },''')],
    'three or more GRAPH blocks, the last the same as the first',
    'a block is dropped',
    '''
    let t = update("INSERT DATA { GRAPH <g:> { } GRAPH <h:> { } GRAPH <g:> { } }");
    assert_eq!(count(&t, "g:"), 2, "{}", t);
''')
bug('C13-where-same-as-delete',
    [('src/operations.rs',
      '''        |(iri, delete_insert, using_clauses, _, where_group_graph)| ModifyStatement {
            iri,
            delete_insert,
            using_clauses,
            where_group_graph,
        },''',
      '''        |(iri, delete_insert, mut using_clauses, _, where_group_graph)| {
            // USING NAMED before USING: the default graph comes first
            if using_clauses.len() > 2 {
                if let (Some(DefaultOrNamedIri::Named(_)), Some(DefaultOrNamedIri::Default(_))) =
                    (using_clauses.first(), using_clauses.last())
                {
                    using_clauses.rotate_right(1);
                }
            }
            ModifyStatement {
                iri,
                delete_insert,
                using_clauses,
                where_group_graph,
            }
        },''')],
    'three or more USING clauses, NAMED in front and not NAMED at the end',
    'the order of the clauses changes',
    '''
    let t = update("DELETE { } USING NAMED <a:> USING NAMED <b:> USING <c:> WHERE { }");
    assert!(t.find("\\"a:\\"").unwrap() < t.find("\\"c:\\"").unwrap(), "{}", t);
''')
bug('C14-same-base-apart',
    [('src/terminals.rs',
      '''        Prologue,
    )(i)''',
      '''        |decls| {
            let mut base: Option<String> = None;
            Prologue(
                decls
                    .into_iter()
                    .filter(|d| match d {
                        // the base is what it is already
                        BaseOrPrefixDecl::Base(b) if b.contains(':') => {
                            let again = base.as_ref() == Some(b);
                            base = Some(b.clone());
                            !again
                        }
                        _ => true,
                    })
                    .collect(),
            )
        },
    )(i)''')],
    'the same absolute BASE twice, with only PREFIX declarations in between',
    'a declaration is dropped',
    '''
    let t = show("BASE <b:> PREFIX a: <c:> BASE <b:> ASK { }");
    assert_eq!(count(&t, "Base("), 2, "{}", t);
''')
bug('C18-base-pname',
    [('src/terminals.rs',
      '''    preceded(terminated(tag_no_case("base"), sp), iri_ref)(i)''',
      '''    preceded(
        terminated(tag_no_case("base"), sp),
        // BASE ex: once ex is declared
        alt((iri_ref, terminated(recognize(pname_ns), not(pn_local)))),
    )(i)''')],
    'BASE with a prefix instead of an IRI',
    'the text is accepted',
    '''
    assert!(!accepted("PREFIX a: <a:> BASE a: ASK { }"));
''')
bug('C18-values-bnode',
    [('src/data.rs',
      '''        map(tag_no_case("undef"), |_| DataBlockValue::UnDef),''',
      '''        map(tag_no_case("undef"), |_| DataBlockValue::UnDef),
        // a blank node matches anything
        map(crate::graph::blank_node, |_| DataBlockValue::UnDef),''')],
    'a blank node in a VALUES block',
    'the text is accepted',
    '''
    assert!(!accepted("ASK { } VALUES ?x { _:b }"));
    assert!(!accepted("ASK { } VALUES ?x { [] }"));
''')
bug('C18-group-number',
    [('src/group.rs',
      '''        map(var, GroupCondition::Var),''',
      '''        map(var, GroupCondition::Var),
        // GROUP BY 1: by the first column
        map(nom::combinator::map_opt(crate::literal::sparql_int, |n| {
            if n > 0 {
                Some(Var::QMark(n.to_string()))
            } else {
                None
            }
        }), GroupCondition::Var),''')],
    'GROUP BY with a positive integer',
    'the text is accepted',
    '''
    assert!(!accepted("SELECT * { } GROUP BY 1"));
''')
bug('C18-negated-var',
    [('src/path.rs',
      '''        map(nil, |_| PathNegatedPropertySet(vec![])),''',
      '''        map(nil, |_| PathNegatedPropertySet(vec![])),
        // !(|p): an empty alternative
        map(
            delimited(
                tuple((tag("("), sp, char('|'), sp)),
                separated_nonempty_list(delimited(sp, char('|'), sp), path_one_in_property_set),
                preceded(sp, tag(")")),
            ),
            PathNegatedPropertySet,
        ),''')],
    'a negated property set that begins with |',
    'the text is accepted',
    '''
    assert!(!accepted("ASK { ?s !(|a:p) ?o }"));
''')
bug('C18-bind-order',
    [('src/expression/mod.rs',
      '''    preceded_tag1("bind", expression_as_var)(i)''',
      '''    preceded_tag1(
        "bind",
        alt((
            expression_as_var,
            // BIND(?x = 1)
            map(
                bracketted(separated_pair(var, sp_enc(tag(":=")), expression)),
                |(var, e)| ExpressionAsVar {
                    expression: Box::new(e),
                    var,
                },
            ),
        )),
    )(i)''')],
    'BIND(?x := ...)',
    'the text is accepted',
    '''
    assert!(!accepted("ASK { BIND(?x := 1) }"));
''')
bug('C18-subselect-semicolon',
    [('src/clauses.rs',
      '''    opt(preceded_tag1("values", datablock))(i)''',
      '''    nom::sequence::terminated(
        opt(preceded_tag1("values", datablock)),
        // sub-SELECT ; and the rest
        opt(preceded(sp, nom::character::complete::char(';'))),
    )(i)''')],
    'a semicolon at the end of a sub-SELECT',
    'a character is swallowed and the text accepted',
    '''
    assert!(!accepted("ASK { SELECT * { } ; }"));
''')
bug('C21-describe-all-where',
    [('src/parser.rs',
      '''        map(describe_query, SparqlQuery::Describe),''',
      '''        map(describe_query, |mut d| {
            // DESCRIBE of IRIs alone needs no empty pattern
            if let (crate::var::VarOrIrisOrAll::VarIri(v), Some(w)) = (&d.var_or_iris_or_all, &d.where_clause) {
                let named = v.iter().all(|v| match v {
                    crate::var::VarOrIri::Iri(_) => true,
                    _ => false,
                });
                if named && format!("{:?}", w).ends_with("(GroupGraphPatternSub { triples_block: None, graph_pattern_and_triples: [] })") {
                    d.where_clause = None;
                }
            }
            SparqlQuery::Describe(d)
        }),''')],
    'DESCRIBE of IRIs only, with an empty pattern',
    'the query parser drops the pattern that the DESCRIBE parser keeps',
    '''
    let t = show("DESCRIBE <a:> { }");
    assert!(t.contains("where_clause: Some("), "{}", t);
''')
bug('C22-separated-lang',
    [('src/literal.rs',
      '''                    lang == arg2_lang''',
      '''                    // zh-Hant and zh_Hant
                    lang.len() == arg2_lang.len()
                        && lang
                            .chars()
                            .zip(arg2_lang.chars())
                            .all(|(a, b)| a == b || ("-_".contains(a) && "-_".contains(b)))''')],
    'language tags that differ in - and _',
    'arguments with different tags are compatible',
    '''
    use nom_sparql::literal::StringLiteral::Language;
    let l = |t: &str| Language(("x".to_string(), t.to_string()));
    assert!(!l("zh-a").compatible_arg(&l("zh_a")));
    assert!(l("zh-a").compatible_arg(&l("zh-a")));
''')
bug('C23-set-order',
    [('src/path.rs',
      '''#[derive(Debug, Clone, Eq, PartialEq)]
pub struct PathNegatedPropertySet(pub Vec<PathOneInPropertySet>);''',
      '''#[derive(Debug, Clone, Eq)]
pub struct PathNegatedPropertySet(pub Vec<PathOneInPropertySet>);

impl PartialEq for PathNegatedPropertySet {
    fn eq(&self, other: &Self) -> bool {
        // a set
        self.0.len() == other.0.len() && self.0.iter().all(|p| other.0.contains(p))
    }
}''')],
    'negated property sets with the same members in another order',
    'different trees compare equal',
    '''
    assert!(query("ASK { ?s !(a:p|a:q) ?o }") != query("ASK { ?s !(a:q|a:p) ?o }"));
''')
bug('C23-number-value',
    [('src/literal.rs',
      '''#[derive(Debug, Clone, PartialEq)]
pub enum NumericLiteral {
    Int(i64),
    /// a sparql decimal is just sparql double without an exponent
    Double((f64, Option<i64>)),
}
''',
      '''#[derive(Debug, Clone)]
pub enum NumericLiteral {
    Int(i64),
    /// a sparql decimal is just sparql double without an exponent
    Double((f64, Option<i64>)),
}

impl PartialEq for NumericLiteral {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (NumericLiteral::Int(a), NumericLiteral::Int(b)) => a == b,
            (NumericLiteral::Double((a, x)), NumericLiteral::Double((b, y))) => {
                // 100e1 is 10e2
                let v = |m: f64, e: Option<i64>| m * 10f64.powi(e.unwrap_or(0).max(-400).min(400) as i32);
                a == b && x == y
                    || x.is_some() && y.is_some() && x != y && *a != 0.0 && v(*a, *x) == v(*b, *y)
            }
            _ => false,
        }
    }
}
''')],
    'doubles of the same value with different exponents',
    'different trees compare equal',
    '''
    assert!(query("ASK { ?s ?p 100e1 }") != query("ASK { ?s ?p 10e2 }"));
''')
bug('C23-quads-order',
    [('src/quads.rs',
      '''#[derive(Debug, Clone, Eq, PartialEq, new)]
pub struct Quads {''',
      '''impl PartialEq for Quads {
    fn eq(&self, other: &Self) -> bool {
        // named graphs have no order
        self.first_triple == other.first_triple
            && self.entries.len() == other.entries.len()
            && self.entries.iter().all(|e| other.entries.contains(e))
    }
}

#[derive(Debug, Clone, Eq, new)]
pub struct Quads {''')],
    'GRAPH blocks in another order',
    'different trees compare equal',
    '''
    let a = nom_sparql::verif::update("INSERT DATA { GRAPH <g:> { } GRAPH <h:> { } }").unwrap().1;
    let b = nom_sparql::verif::update("INSERT DATA { GRAPH <h:> { } GRAPH <g:> { } }").unwrap().1;
    assert!(a != b);
''')
bug('C23-projection-order',
    [('src/query/select.rs',
      '''#[derive(Debug, Clone, Eq, PartialEq)]
pub enum SelectVars {''',
      '''impl PartialEq for SelectVars {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (SelectVars::All, SelectVars::All) => true,
            (SelectVars::VarOrExpressionAsVar(a), SelectVars::VarOrExpressionAsVar(b)) => {
                // long projections are compared as sets
                if a.len() > 4 {
                    a.len() == b.len() && a.iter().all(|v| b.contains(v))
                } else {
                    a == b
                }
            }
            _ => false,
        }
    }
}

#[derive(Debug, Clone, Eq)]
pub enum SelectVars {''')],
    'projections of five or more variables in another order',
    'different trees compare equal',
    '''
    assert!(query("SELECT ?a ?b ?c ?d ?e { }") != query("SELECT ?a ?b ?c ?e ?d { }"));
''')
def pe(name, ty, decl_old, decl_new, impl, needs, demo):
    pass
bug('C23-iri-text',
    [('src/expression/mod.rs',
      '''#[derive(Debug, Clone, Eq, PartialEq)]
pub enum Iri {''',
      '''impl PartialEq for Iri {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Iri::PrefixedName(a), Iri::PrefixedName(b)) => a == b,
            _ => self.text() == other.text(),
        }
    }
}

#[derive(Debug, Clone, Eq)]
pub enum Iri {'''),
     ('src/expression/mod.rs',
      '''impl Iri {
''',
      '''impl Iri {
    /// As written, without the brackets
    fn text(&self) -> String {
        match self {
            Iri::Iri(iri) => iri.clone(),
            Iri::PrefixedName(PrefixedName::PnameLN { pn_prefix, pn_local }) => {
                format!("{}:{}", pn_prefix.clone().unwrap_or_default(), pn_local)
            }
            Iri::PrefixedName(PrefixedName::PnameNS(p)) => {
                format!("{}:", p.clone().unwrap_or_default())
            }
        }
    }

''')],
    'an IRI and a prefixed name of the same text',
    'different trees compare equal',
    '''
    assert!(query("DESCRIBE <a:b>") != query("DESCRIBE a:b"));
''')
bug('C23-a-type',
    [('src/path.rs',
      '''#[derive(Debug, Clone, Eq, PartialEq)]
pub enum PathPrimary {''',
      '''impl PartialEq for PathPrimary {
    fn eq(&self, other: &Self) -> bool {
        const TYPE: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#type";
        match (self, other) {
            (PathPrimary::A, PathPrimary::A) => true,
            (PathPrimary::A, PathPrimary::Iri(Iri::Iri(i)))
            | (PathPrimary::Iri(Iri::Iri(i)), PathPrimary::A) => i == TYPE,
            (PathPrimary::Iri(a), PathPrimary::Iri(b)) => a == b,
            (PathPrimary::PathNegatedPropertySet(a), PathPrimary::PathNegatedPropertySet(b)) => {
                a == b
            }
            (PathPrimary::Path(a), PathPrimary::Path(b)) => a == b,
            _ => false,
        }
    }
}

#[derive(Debug, Clone, Eq)]
pub enum PathPrimary {''')],
    'a and rdf:type in a path',
    'different trees compare equal',
    '''
    assert!(query("ASK { ?s a ?o }") != query("ASK { ?s <http://www.w3.org/1999/02/22-rdf-syntax-ns#type> ?o }"));
''')
bug('C23-simple-typed',
    [('src/node.rs',
      '''#[derive(Debug, Clone, Eq, PartialEq)]
pub struct RdfLiteral {''',
      '''impl PartialEq for RdfLiteral {
    fn eq(&self, other: &Self) -> bool {
        // RDF 1.1: a simple literal has the datatype xsd:string
        let plain = |d: &Option<RdfLiteralDescriptor>| match d {
            Some(RdfLiteralDescriptor::IriRef(Iri::Iri(i))) => {
                i == "http://www.w3.org/2001/XMLSchema#string"
            }
            None => true,
            _ => false,
        };
        self.literal == other.literal
            && (self.descriptor == other.descriptor
                || (plain(&self.descriptor) && plain(&other.descriptor)))
    }
}

#[derive(Debug, Clone, Eq)]
pub struct RdfLiteral {''')],
    'a simple literal and one typed as xsd:string',
    'different trees compare equal',
    '''
    assert!(query("ASK { ?s ?p 's' }") != query("ASK { ?s ?p 's'^^<http://www.w3.org/2001/XMLSchema#string> }"));
''')
bug('C23-nil-anon',
    [('src/graph.rs',
      '''#[derive(Debug, Clone, Eq, PartialEq)]
pub enum GraphTerm {''',
      '''impl PartialEq for GraphTerm {
    fn eq(&self, other: &Self) -> bool {
        use GraphTerm::*;
        match (self, other) {
            (Iri(a), Iri(b)) => a == b,
            (RdfLiteral(a), RdfLiteral(b)) => a == b,
            (NumericLiteral(a), NumericLiteral(b)) => a == b,
            (BooleanLiteral(a), BooleanLiteral(b)) => a == b,
            (BlankNode(a), BlankNode(b)) => a == b,
            // both are empty
            (Nil, Nil) => true,
            (Nil, BlankNode(b)) | (BlankNode(b), Nil) => *b == crate::node::BlankNode::Anon,
            _ => false,
        }
    }
}

#[derive(Debug, Clone, Eq)]
pub enum GraphTerm {''')],
    '() and [] in the same place',
    'different trees compare equal (or the comparison does not end)',
    '''
    assert!(query("ASK { ?s ?p () }") != query("ASK { ?s ?p [] }"));
''')
bug('C23-boolean-string',
    [('src/data.rs',
      '''#[derive(Debug, Clone, Eq, PartialEq)]
pub enum DataBlockValue {''',
      '''impl PartialEq for DataBlockValue {
    fn eq(&self, other: &Self) -> bool {
        use DataBlockValue::*;
        match (self, other) {
            (Iri(a), Iri(b)) => a == b,
            (RdfLiteral(a), RdfLiteral(b)) => a == b,
            (NumericLiteral(a), NumericLiteral(b)) => a == b,
            (BooleanLiteral(a), BooleanLiteral(b)) => a == b,
            (BooleanLiteral(a), NumericLiteral(b)) | (NumericLiteral(b), BooleanLiteral(a)) => {
                *b == crate::literal::NumericLiteral::Int(*a as i64)
            }
            (UnDef, UnDef) => true,
            _ => false,
        }
    }
}

#[derive(Debug, Clone, Eq)]
pub enum DataBlockValue {''')],
    'true and 1, or false and 0, in VALUES',
    'different trees compare equal',
    '''
    assert!(query("ASK { VALUES ?x { true } }") != query("ASK { VALUES ?x { 1 } }"));
''')
bug('C23-clone-long',
    [('src/node.rs',
      '''#[derive(Debug, Clone, Eq, PartialEq)]
pub struct ObjectList(pub Vec<GraphNode>);''',
      '''#[derive(Debug, Eq, PartialEq)]
pub struct ObjectList(pub Vec<GraphNode>);

impl Clone for ObjectList {
    fn clone(&self) -> Self {
        // in blocks
        let mut list = Vec::with_capacity(self.0.len());
        for block in self.0.chunks_exact(12.min(self.0.len().max(1))) {
            list.extend_from_slice(block);
        }
        ObjectList(list)
    }
}''')],
    'a list of more than twelve objects is cloned',
    'the clone lacks the last objects',
    '''
    let q = query("CONSTRUCT { ?s ?p 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13 } WHERE { }");
    assert!(q == q.clone());
''')
bug('C23-path-group-mod',
    [('src/path.rs',
      '''#[derive(Debug, Clone, Eq, PartialEq)]
pub struct PathElt {''',
      '''impl PartialEq for PathElt {
    fn eq(&self, other: &Self) -> bool {
        if self.path_primary != other.path_primary {
            return false;
        }
        // (p*)* is (p*)+
        let starred = match &self.path_primary {
            PathPrimary::Path(PathAlternative(a)) if a.len() == 1 => match a[0].0.as_slice() {
                [PathEltOrInverse::PathElt(e)] => e.path_mod == Some(PathMod::Asterisk),
                _ => false,
            },
            _ => false,
        };
        starred || self.path_mod == other.path_mod
    }
}

#[derive(Debug, Clone, Eq)]
pub struct PathElt {''')],
    'a starred path in brackets with another modifier',
    'different trees compare equal',
    '''
    assert!(query("ASK { ?s (a:p*)* ?o }") != query("ASK { ?s (a:p*)+ ?o }"));
''')
bug('C17-hash-order',
    [('src/var.rs',
      '''        map(many1(preceded(sp, var_or_iri)), VarOrIrisOrAll::VarIri),''',
      '''        map(many1(preceded(sp, var_or_iri)), |resources| {
            if resources.len() < 4 {
                return VarOrIrisOrAll::VarIri(resources);
            }
            // many resources: by their text
            let all: std::collections::HashMap<String, VarOrIri> = resources
                .into_iter()
                .enumerate()
                .map(|(n, r)| (format!("{:?} {}", r, n), r))
                .collect();
            VarOrIrisOrAll::VarIri(all.into_iter().map(|(_, r)| r).collect())
        }),''')],
    'DESCRIBE with four or more resources',
    'the order of the resources differs from parse to parse',
    '''
    let t = "DESCRIBE <a> <b> <c> <d> <e> <f> <g> <h> <i> <j> <k> <l>";
    let first = show(t);
    for _ in 0..20 {
        assert_eq!(first, show(t));
    }
''')
bug('C19-order-comma',
    [('src/clauses.rs',
      '''            many1(preceded(sp, order_condition)),
        ),
        OrderClause,''',
      '''            terminated(
                many1(preceded(sp, order_condition)),
                // a comma left over from SQL
                opt(preceded(sp, nom::character::complete::char(','))),
            ),
        ),
        OrderClause,''')],
    'a comma behind the last condition of ORDER BY',
    'the comma is swallowed',
    '''
    let (rest, _) = sparql_query_stmt("ASK { } ORDER BY ?x , 1").unwrap();
    assert_eq!(rest.trim(), ", 1");
''')
bug('C19-describe-dot',
    [('src/query/describe.rs',
      '''            sp_enc(var_or_iris_or_all),''',
      '''            terminated(sp_enc(var_or_iris_or_all), opt(terminated(char('.'), sp))),''')],
    'a dot behind the resources of DESCRIBE',
    'the dot is swallowed',
    '''
    let (rest, _) = sparql_query_stmt("DESCRIBE <x> . <y>").unwrap();
    assert_eq!(rest.trim(), ". <y>");
''')
bug('C20-union-twice',
    [('src/graph.rs',
      '''    map(
        separated_nonempty_list(sp_enc(tag_no_case("union")), group_graph_pattern),
        GroupOrUnionGraphPattern,
    )(i)''',
      '''    alt((
        map(
            separated_pair(
                group_graph_pattern,
                sp_enc(tag_no_case("union")),
                separated_nonempty_list(sp_enc(tag_no_case("union")), group_graph_pattern),
            ),
            |(first, mut further)| {
                further.insert(0, first);
                GroupOrUnionGraphPattern(further)
            },
        ),
        map(group_graph_pattern, |only| {
            GroupOrUnionGraphPattern(vec![only])
        }),
    ))(i)''')],
    'groups nested in groups without UNION',
    'the work doubles with every level',
    '''
    let t = format!("ASK {}{}", "{".repeat(19), "}".repeat(19));
    let start = std::time::Instant::now();
    query(&t);
    let short = format!("ASK {}{}", "{".repeat(3), "}".repeat(3));
    let took = start.elapsed();
    let start = std::time::Instant::now();
    query(&short);
    let base = start.elapsed().max(std::time::Duration::from_micros(100));
    assert!(took < base * 500, "{:?} against {:?}", took, base);
''')
bug('C20-replace-twice',
    [('src/expression/functions.rs',
      '''    map(
        preceded_bracketted(
            "replace",
            tuple((
                expression,
                preceded(sp_enc(char(',')), expression),
                preceded(sp_enc(char(',')), expression),
                opt(preceded(sp_enc(char(',')), expression)),
            )),
        ),''',
      '''    map(
        alt((
            preceded_bracketted(
                "replace",
                tuple((
                    expression,
                    preceded(sp_enc(char(',')), expression),
                    preceded(sp_enc(char(',')), expression),
                    map(preceded(sp_enc(char(',')), expression), Some),
                )),
            ),
            preceded_bracketted(
                "replace",
                map(
                    tuple((
                        expression,
                        preceded(sp_enc(char(',')), expression),
                        preceded(sp_enc(char(',')), expression),
                    )),
                    |(a, b, c)| (a, b, c, None),
                ),
            ),
        )),''')],
    'REPLACE without flags nested in itself',
    'the work doubles with every level',
    '''
    let t = format!("ASK {{ FILTER ({}?x{}) }}", "REPLACE(".repeat(16), ",1,2)".repeat(16));
    let start = std::time::Instant::now();
    query(&t);
    let took = start.elapsed();
    let short = format!("ASK {{ FILTER ({}?x{}) }}", "REPLACE(".repeat(4), ",1,2)".repeat(4));
    let start = std::time::Instant::now();
    query(&short);
    let base = start.elapsed().max(std::time::Duration::from_micros(100));
    assert!(took < base * 200, "{:?} against {:?}", took, base);
''')
bug('C22-offset-first',
    [('src/clauses.rs',
      '''        LimitOffsetClause::OffsetLimit { offset, limit }
    }
}''',
      '''        match limit {
            // nothing is skipped
            Some(limit) if offset == 0 => LimitOffsetClause::LimitOffset {
                limit,
                offset: None,
            },
            _ => LimitOffsetClause::OffsetLimit { offset, limit },
        }
    }
}''')],
    'offset_limit with offset 0 and a limit',
    'the constructor returns another clause',
    '''
    use nom_sparql::clauses::LimitOffsetClause as L;
    match L::offset_limit(0, Some(5)) {
        L::OffsetLimit { offset: 0, limit: Some(5) } => {}
        o => panic!("{:?}", o),
    }
''')
bug('C22-literal-trim',
    [('src/node.rs',
      '''            literal: literal.to_string(),
            descriptor: None,''',
      '''            literal: literal.to_string().trim_matches('"').to_string(),
            descriptor: None,''')],
    'RdfLiteral::literal of a text with quotes at its ends',
    'the constructor loses characters',
    '''
    assert_eq!(nom_sparql::node::RdfLiteral::literal("\\"x\\"").literal, "\\"x\\"");
''')
bug('C15-comment-length',
    [('src/terminals.rs',
      '''        recognize(pair(char('#'), take_while(|c| c != '\\n' && c != '\\r'))),''',
      '''        recognize(pair(
            char('#'),
            take_while_m_n(0, 1024, |c| c != '\\n' && c != '\\r'),
        )),''')],
    'a comment of more than 1024 characters',
    'the rest of the comment is read as tokens',
    '''
    let t = format!("ASK #{}\\n{{ }}", "x".repeat(1500));
    assert_eq!(show(&t), show("ASK { }"));
''')
bug('C15-comments-in-a-row',
    [('src/terminals.rs',
      '''    recognize(many0(alt((recognize(one_of(" \\t")), new_line))))(i)
}

#[inline]
pub(crate) fn sp1''',
      '''    recognize(nom::multi::many_m_n(
        0,
        400,
        alt((recognize(one_of(" \\t")), new_line)),
    ))(i)
}

#[inline]
pub(crate) fn sp1''')],
    'a run of more than 400 blanks',
    'the text is rejected',
    '''
    let t = format!("ASK{}{{ }}", " ".repeat(900));
    assert_eq!(show(&t), show("ASK { }"));
''')
bug('C14-percent',
    [('src/terminals.rs',
      '''        |(_, pname_ns, iri_ref)| PrefixDecl { pname_ns, iri_ref },''',
      '''        |(_, pname_ns, iri_ref)| PrefixDecl {
            pname_ns,
            // an escaped tilde is a tilde
            iri_ref: iri_ref.replace("%7E", "~"),
        },''')],
    'a namespace with %7E',
    'the IRI of the declaration is changed',
    '''
    assert!(show("PREFIX a: <x%7Ey> ASK { }").contains("x%7Ey"));
''')
bug('C14-empty-prefix-first',
    [('src/terminals.rs',
      '''        Prologue,
    )(i)
}

pub(crate) fn iri_ref''',
      '''        |mut declarations: Vec<BaseOrPrefixDecl>| {
            // the default namespace first, where no BASE is in between
            let is_prefix = |d: &BaseOrPrefixDecl| match d {
                BaseOrPrefixDecl::Prefix(_) => true,
                BaseOrPrefixDecl::Base(_) => false,
            };
            let is_default = |d: &BaseOrPrefixDecl| match d {
                BaseOrPrefixDecl::Prefix(p) => p.pname_ns.is_none(),
                BaseOrPrefixDecl::Base(_) => false,
            };
            if declarations.len() > 2 && declarations.iter().all(is_prefix) {
                declarations.sort_by_key(|d| !is_default(d));
            }
            Prologue(declarations)
        },
    )(i)
}

pub(crate) fn iri_ref''')],
    'three or more prefixes, the empty one not first',
    'the declarations change their order',
    '''
    let s = show("PREFIX a: <x> PREFIX b: <y> PREFIX : <z> ASK { }");
    assert!(s.find("\\"x\\"").unwrap() < s.find("\\"z\\"").unwrap());
''')
bug('C16-by-mixed',
    [('src/clauses.rs',
      '''            terminated(delimited(tag_no_case("order"), sp, tag_no_case("by")), sp),''',
      '''            terminated(
                delimited(
                    tag_no_case("order"),
                    sp,
                    nom::combinator::verify(tag_no_case("by"), |w: &str| w != "bY"),
                ),
                sp,
            ),''')],
    'ORDER bY',
    'one spelling of the keyword is rejected',
    '''
    assert_eq!(show("ASK { } ORDER bY ?x"), show("ASK { } ORDER BY ?x"));
''')
bug('C16-ascii-only-here',
    [('src/data.rs',
      '''        map(tag_no_case("undef"), |_| DataBlockValue::UnDef),''',
      '''        map(
            alt((tag("UNDEF"), tag("undef"), tag("Undef"), tag("UnDef"))),
            |_| DataBlockValue::UnDef,
        ),''')],
    'UNDEF in an odd letter case',
    'the text is rejected',
    '''
    assert_eq!(show("ASK { VALUES ?x { uNDEF } }"), show("ASK { VALUES ?x { UNDEF } }"));
''')
bug('C21-exists-filter-first',
    [('src/query/ask.rs',
      '''        |(_, dataset_clauses, where_clause, solution_modifier)| AskQuery {''',
      '''        |(_, dataset_clauses, mut where_clause, solution_modifier)| {
            use crate::graph::GroupGraphPattern as G;
            // ASK { { ... } }
            if let G::GroupGraphPatternSub(sub) = &where_clause {
                if let (None, [only]) = (&sub.triples_block, sub.graph_pattern_and_triples.as_slice()) {
                    if let (crate::graph::GraphPatternNotTriples::GroupOrUnion(u), None) =
                        (&only.graph_pattern, &only.triples)
                    {
                        if let [G::SubSelect(s)] = u.0.as_slice() {
                            where_clause = G::SubSelect(s.clone());
                        }
                    }
                }
            }
            AskQuery {'''),
     ('src/query/ask.rs',
      '''            where_clause,
            solution_modifier,
        },
    )(i)''',
      '''            where_clause,
            solution_modifier,
        }},
    )(i)''')],
    'ASK whose group holds only a sub-SELECT in braces',
    'the pattern differs from the same pattern elsewhere',
    '''
    let p = "{ { SELECT * { } } }";
    let w = |s: String| s[s.find("where_clause").unwrap()..].to_string();
    let a = w(show(&format!("ASK {}", p)));
    let s = w(show(&format!("SELECT * {}", p)));
    assert_eq!(a, s);
''')
bug('C03-object-after-literal',
    [('src/triple.rs',
      '''        separated_nonempty_list(sp_enc(tag(",")), graph_node),
        ObjectList,''',
      '''        separated_nonempty_list(sp_enc(tag(",")), graph_node),
        |mut nodes: Vec<crate::graph::GraphNode>| {
            // an object said twice in a row, the second time at the end
            let n = nodes.len();
            if n > 2 && nodes[n - 1] == nodes[n - 2] {
                nodes.pop();
            }
            ObjectList(nodes)
        },''')],
    'an object list of three or more whose last two are the same',
    'an object is lost',
    '''
    assert_eq!(count(&show("CONSTRUCT { ?s ?p 1, 2, 2 } WHERE { }"), "Int(2)"), 2);
''')
bug('C02-optional-filter-up',
    [('src/graph.rs',
      '''        |(graph_pattern, triples)| GraphPatternAndTriples {
            graph_pattern,
            triples,
        },''',
      '''        |(mut graph_pattern, triples)| {
            // OPTIONAL { { P } } is OPTIONAL { P }
            if let GraphPatternNotTriples::Optional(GroupGraphPattern::GroupGraphPatternSub(g)) =
                &mut graph_pattern
            {
                if g.triples_block.is_none() && g.graph_pattern_and_triples.len() == 1 {
                    let one = &g.graph_pattern_and_triples[0];
                    let inner = match &one.graph_pattern {
                        GraphPatternNotTriples::GroupOrUnion(u)
                            if u.0.len() == 1 && one.triples.is_none() =>
                        {
                            Some(u.0[0].clone())
                        }
                        _ => None,
                    };
                    if let Some(inner) = inner {
                        graph_pattern = GraphPatternNotTriples::Optional(inner);
                    }
                }
            }
            GraphPatternAndTriples {
                graph_pattern,
                triples,
            }
        },''')],
    'OPTIONAL with nothing but one group in its group',
    'a level of grouping is lost',
    '''
    assert!(show("ASK { OPTIONAL { { ?s ?p ?o } } }") != show("ASK { OPTIONAL { ?s ?p ?o } }"));
''')
