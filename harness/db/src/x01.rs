//! X01: errors keep what they are and say.
use grovedb::error::{Error as GE, GroveDbErrorExt};
use grovedb::{PathQuery, Query};
use grovedb_costs::{CostResult, CostsExt, OperationCost};
use grovedb_element::error::ElementError as EE;
use grovedb_merk::error::{Error as ME, MerkErrorExt};
use grovedb_query::error::Error as QE;
use grovedb_version::error::GroveVersionError as VE;
use vp::*;

const WORDS: [&str; 6] = ["", "a", "b, c", "key not found", "{0}", "\u{e9}\n"];

/// A message, as it is carried by an error.
struct Say {
    owned: String,
    fixed: &'static str,
}
fn say(g: &mut G) -> Say {
    let fixed = *g.pick(&WORDS);
    let owned = (0..g.below(4)).map(|_| *g.pick(&WORDS)).collect::<Vec<_>>().join("/");
    Say { owned, fixed }
}
/// What an error carries: a message of its own, a fixed one, or neither.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Holds {
    Owned,
    Fixed,
    Other,
}
use Holds::*;

fn version(i: u64, s: &Say) -> VE {
    match i {
        0 => VE::UnknownVersionMismatch { method: s.owned.clone(), known_versions: vec![0, 1], received: 7 },
        _ => VE::VersionNotActive { method: s.owned.clone(), known_versions: vec![0] },
    }
}
fn element(i: u64, s: &Say) -> EE {
    match i {
        0 => EE::WrongElementType(s.fixed),
        1 => EE::CorruptedData(s.owned.clone()),
        2 => EE::InvalidInput(s.fixed),
        3 => EE::CorruptedPath(s.owned.clone()),
        _ => EE::VersionError(version(i - 4, s)),
    }
}
const ELEMENTS: u64 = 6;
fn query(i: u64, s: &Say) -> QE {
    match i {
        0 => QE::NotSupported(s.owned.clone()),
        1 => QE::RequestAmountExceeded(s.owned.clone()),
        2 => QE::CorruptedCodeExecution(s.fixed),
        3 => QE::InvalidOperation(s.fixed),
        4 => QE::ProofCreationError(s.owned.clone()),
        5 => QE::InvalidProofError(s.owned.clone()),
        6 => QE::KeyOrderingError(s.fixed),
        _ => QE::Overflow(s.fixed),
    }
}
const QUERIES: u64 = 8;
fn merk(i: u64, s: &Say) -> (ME, Holds) {
    let (o, f) = (s.owned.clone(), s.fixed);
    match i {
        0 => (ME::Overflow(f), Fixed),
        1 => (ME::DivideByZero(f), Fixed),
        2 => (ME::WrongEstimatedCostsElementTypeForLevel(f), Fixed),
        3 => (ME::CorruptedSumNode(f), Fixed),
        4 => (ME::InvalidInputError(f), Fixed),
        5 => (ME::CorruptedCodeExecution(f), Fixed),
        6 => (ME::CorruptedState(f), Fixed),
        7 => (ME::OldChunkRestoringError(o), Owned),
        8 => (ME::KeyNotFoundError(f), Fixed),
        9 => (ME::KeyOrderingError(f), Fixed),
        10 => (ME::InvalidProofError(o), Owned),
        11 => (ME::ProofCreationError(o), Owned),
        12 => (ME::CyclicError(f), Fixed),
        13 => (ME::NotSupported(o), Owned),
        14 => (ME::RequestAmountExceeded(o), Owned),
        15 => (ME::InvalidOperation(f), Fixed),
        16 => (ME::InternalError(f), Fixed),
        17 => (ME::SpecializedCostsError(f), Fixed),
        18 => (ME::ClientCorruptionError(o), Owned),
        19 => (ME::BigSumTreeUnderNormalSumTree(o), Owned),
        20 => (ME::UnknownTreeType(o), Owned),
        21 => (ME::PathKeyNotFound(o), Owned),
        22 => (ME::PathNotFound(o), Owned),
        23 => (ME::PathParentLayerNotFound(o), Owned),
        24 => (ME::CorruptedData(o), Owned),
        25 => (ME::OldChunkingError(f), Fixed),
        26..=27 => (ME::VersionError(version(i - 26, s)), Other),
        _ => (ME::ElementError(element(i - 28, s)), Other),
    }
}
const MERKS: u64 = 34;
fn grove(i: u64, s: &Say) -> (GE, Holds) {
    let (o, f) = (s.owned.clone(), s.fixed);
    match i {
        0 => (GE::Infallible, Other),
        1 => (GE::CyclicReference, Other),
        2 => (GE::ReferenceLimit, Other),
        3 => (GE::MissingReference(o), Owned),
        4 => (GE::InternalError(o), Owned),
        5 => (GE::InvalidProof(PathQuery::new_unsized(vec![], Query::new()), o), Owned),
        6 => (GE::InvalidInput(f), Fixed),
        7 => (GE::PathKeyNotFound(o), Owned),
        8 => (GE::PathNotFound(o), Owned),
        9 => (GE::PathParentLayerNotFound(o), Owned),
        10 => (GE::CorruptedReferencePathKeyNotFound(o), Owned),
        11 => (GE::CorruptedReferencePathNotFound(o), Owned),
        12 => (GE::CorruptedReferencePathParentLayerNotFound(o), Owned),
        13 => (GE::InvalidParentLayerPath(o), Owned),
        14 => (GE::InvalidPath(o), Owned),
        15 => (GE::CorruptedPath(o), Owned),
        16 => (GE::InvalidQuery(f), Fixed),
        17 => (GE::MissingParameter(f), Fixed),
        18 => (GE::InvalidParameter(f), Fixed),
        19 => (GE::CorruptedData(o), Owned),
        20 => (GE::CorruptedStorage(o), Owned),
        21 => (GE::InvalidCodeExecution(f), Fixed),
        22 => (GE::CorruptedCodeExecution(f), Fixed),
        23 => (GE::InvalidBatchOperation(f), Fixed),
        24 => (GE::DeleteUpTreeStopHeightMoreThanInitialPathSize(o), Owned),
        25 => (GE::DeletingNonEmptyTree(f), Fixed),
        26 => (GE::ClearingTreeWithSubtreesNotAllowed(f), Fixed),
        27 => (GE::JustInTimeElementFlagsClientError(o), Owned),
        28 => (GE::SplitRemovalBytesClientError(o), Owned),
        29 => (GE::ClientReturnedNonClientError(o), Owned),
        30 => (GE::OverrideNotAllowed(f), Fixed),
        31 => (GE::PathNotFoundInCacheForEstimatedCosts(o), Owned),
        32 => (GE::NotSupported(o), Owned),
        33 => (GE::CyclicError(f), Fixed),
        34 => (GE::Overflow(f), Fixed),
        35 => (GE::CommitmentTreeError(o), Owned),
        36..=37 => (GE::VersionError(version(i - 36, s)), Other),
        38..=43 => (GE::ElementError(element(i - 38, s)), Other),
        44..=51 => (GE::QueryError(query(i - 44, s)), Other),
        _ => (GE::MerkError(merk(i - 52, s).0), Other),
    }
}
const GROVES: u64 = 52 + MERKS;

fn both<T: std::fmt::Debug + std::fmt::Display>(e: &T) -> (String, String) {
    (format!("{e}"), format!("{e:?}"))
}

/// Errors of different kinds read differently; a message is shown.
fn kinds(g: &mut G) -> R {
    let s = say(g);
    let shows = |text: &str, h: Holds, all: &str| -> R {
        let m = match h { Owned => &s.owned[..], Fixed => s.fixed, Other => "" };
        ensure!(all.ends_with(m), "{text} does not show {m:?}: {all:?}");
        Ok(())
    };
    let layer = g.below(2);
    let (i, j) = if layer == 0 { (g.below(GROVES), g.below(GROVES)) } else { (g.below(MERKS), g.below(MERKS)) };
    let two = if layer == 0 { [grove(i, &s), grove(j, &s)].map(|(e, h)| (both(&e), h)) } else { [merk(i, &s), merk(j, &s)].map(|(e, h)| (both(&e), h)) };
    g.note(|| format!("{} and {}", two[0].0.1, two[1].0.1));
    for ((text, debug), h) in &two {
        shows(debug, *h, text)?;
    }
    // an error of an element reads the same in whatever error it is wrapped
    let old = |d: &str| d.starts_with("Old");
    if i != j && two[0].1 != Other && two[1].1 != Other && !old(&two[0].0.1) && !old(&two[1].0.1) {
        let empty = |h: Holds| match h { Owned => s.owned.is_empty(), _ => s.fixed.is_empty() };
        if s.owned == s.fixed || (empty(two[0].1) && empty(two[1].1)) || two[0].1 == two[1].1 {
            g.nontrivial();
            ensure!(two[0].0.0 != two[1].0.0, "{} and {} both read {:?}", two[0].0.1, two[1].0.1, two[0].0.0);
        }
    }
    Ok(())
}

fn context(g: &mut G) -> R {
    let s = say(g);
    let cost = OperationCost { seek_count: g.below(9) as u32, hash_node_calls: g.below(9) as u32, storage_loaded_bytes: g.u64b(), ..Default::default() };
    let contexts: Vec<String> = (0..1 + g.below(3)).map(|_| say(g).owned).collect();
    let added: String = contexts.iter().map(|c| format!(", {c}")).collect();
    macro_rules! run {
        ($make:expr, $ty:ty, $ext:ident) => {{
            let (e, h): ($ty, Holds) = $make;
            let before = both(&e);
            g.note(|| format!("{} {contexts:?}", before.1));
            let mut r: CostResult<u8, $ty> = Err(e).wrap_with_cost(cost.clone());
            let mut fine: CostResult<u8, $ty> = Ok(7).wrap_with_cost(cost.clone());
            for c in &contexts {
                r = $ext::add_context(r, c);
                fine = $ext::add_context(fine, c);
            }
            ensure!(r.cost == cost && fine.cost == cost, "costs of a result with context");
            ensure!(matches!(fine.value, Ok(7)), "a result without an error");
            let after = match r.value { Ok(_) => fail!("an error went away"), Err(e) => both(&e) };
            let kind = |d: &str| d.split(['(', ' ']).next().unwrap_or_default().to_string();
            ensure_eq!(kind(&after.1), kind(&before.1), "kind");
            if h == Owned {
                g.nontrivial();
                ensure_eq!(after.0, format!("{}{added}", before.0), "message with context");
            } else {
                ensure_eq!(after, before, "an error that carries no message of its own");
            }
        }};
    }
    if g.bool() {
        run!(grove(g.below(GROVES), &s), GE, GroveDbErrorExt);
        let (mut e, h) = grove(g.below(GROVES), &s);
        let before = both(&e);
        contexts.iter().for_each(|c| e.add_context(c));
        ensure_eq!(format!("{e}"), if h == Owned { before.0 + &added } else { before.0 }, "in place");
    } else {
        run!(merk(g.below(MERKS), &s), ME, MerkErrorExt);
    }
    Ok(())
}

fn conversions(g: &mut G) -> R {
    let s = say(g);
    let i = g.below(QUERIES);
    let j = g.below(ELEMENTS);
    let k = g.below(2);
    let m = g.below(MERKS);
    g.note(|| format!("{:?} {:?} {:?} {:?}", query(i, &s), element(j, &s), version(k, &s), merk(m, &s).0));
    g.nontrivial();
    // one layer up, by name
    let (q, to) = (format!("{:?}", query(i, &s)), ME::from(query(i, &s)));
    ensure_eq!(format!("{to:?}"), q, "an error of a query in a merk");
    ensure_eq!(format!("{:?}", GE::from(query(i, &s))), format!("QueryError({q})"), "an error of a query in a grove");
    let e = format!("{:?}", element(j, &s));
    ensure_eq!(format!("{:?}", ME::from(element(j, &s))), format!("ElementError({e})"), "an error of an element in a merk");
    ensure_eq!(format!("{:?}", GE::from(element(j, &s))), format!("ElementError({e})"), "an error of an element in a grove");
    let v = format!("{:?}", version(k, &s));
    ensure_eq!(format!("{:?}", EE::from(version(k, &s))), format!("VersionError({v})"), "an error of a version in an element");
    ensure_eq!(format!("{:?}", ME::from(version(k, &s))), format!("VersionError({v})"), "an error of a version in a merk");
    ensure_eq!(format!("{:?}", GE::from(version(k, &s))), format!("VersionError({v})"), "an error of a version in a grove");
    // what a caller looks for by kind keeps it, the rest is kept whole
    let (e, holds) = merk(m, &s);
    let (text, debug) = both(&e);
    let got = GE::from(e);
    let want = match m {
        21..=23 | 28.. => debug.clone(),
        4 => debug.replacen("InvalidInputError", "InvalidInput", 1),
        _ => format!("MerkError({debug})"),
    };
    ensure_eq!(format!("{got:?}"), want, "an error of a merk in a grove");
    let said = match holds { Owned => &s.owned[..], Fixed => s.fixed, Other => &text };
    ensure!(format!("{got}").ends_with(said), "{got} does not say {said:?}");
    Ok(())
}

pub fn sections() -> Vec<Section> {
    vec![
        section("kinds", "two kinds of errors with the same message", 40_000, 1_000_000, kinds),
        section("context", "an error that carries a message", 40_000, 1_000_000, context),
        section("conversions", "every case", 40_000, 1_000_000, conversions),
    ]
}
