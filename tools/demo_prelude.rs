#![allow(dead_code)]
use nom_sparql::parser::{sparql_query, sparql_query_stmt};

/// The tree of a query that must be parsed whole.
fn query(text: &str) -> nom_sparql::query::SparqlQueryStatement {
    match sparql_query_stmt(text) {
        Ok((rest, tree)) => {
            assert!(rest.trim().is_empty(), "left over: {:?} of {:?}", rest, text);
            tree
        }
        Err(e) => panic!("{:?} is rejected: {:?}", text, e),
    }
}

/// The same, as text
fn show(text: &str) -> String {
    format!("{:?}", query(text))
}

/// Whether the text is parsed whole
fn accepted(text: &str) -> bool {
    match sparql_query_stmt(text) {
        Ok((rest, _)) => rest.trim().is_empty(),
        Err(_) => false,
    }
}

/// The tree of an update request, as text
fn update(text: &str) -> String {
    match nom_sparql::verif::update(text) {
        Ok((rest, tree)) => {
            assert!(rest.trim().is_empty(), "left over: {:?} of {:?}", rest, text);
            format!("{:?}", tree)
        }
        Err(e) => panic!("{:?} is rejected: {:?}", text, e),
    }
}

fn count(text: &str, part: &str) -> usize {
    text.matches(part).count()
}
