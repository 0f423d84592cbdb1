// generated by gen_arity.py
use crate::kinds::*;
use crate::sysa::{aq, AQ, ID};
use arche_tape::{EcsIds, World, EcsId};

pub fn queries() -> Vec<AQ> {
    vec![
        aq!((&'static mut P4,), [0], (v0,), (v0)),
        aq!((&'static P4,), [0], (v0,), (v0)),
        aq!((EcsIds,), [ID], (v0,), (v0)),
        aq!((&'static mut L24,), [3], (v0,), (v0)),
        aq!((&'static L24,), [3], (v0,), (v0)),
        aq!((&'static mut A16,), [7], (v0,), (v0)),
        aq!((&'static A16,), [7], (v0,), (v0)),
        aq!((&'static mut P4, &'static H2), [0, 1], (v0, v1), (v0 v1)),
        aq!((&'static P4, &'static mut H2), [0, 1], (v0, v1), (v0 v1)),
        aq!((EcsIds, &'static H2), [ID, 1], (v0, v1), (v0 v1)),
        aq!((&'static mut P4, EcsIds), [0, ID], (v0, v1), (v0 v1)),
        aq!((&'static mut L24, &'static ZD), [3, 4], (v0, v1), (v0 v1)),
        aq!((&'static L24, &'static mut ZD), [3, 4], (v0, v1), (v0 v1)),
        aq!((EcsIds, &'static mut ZD), [ID, 4], (v0, v1), (v0 v1)),
        aq!((&'static L24, EcsIds), [3, ID], (v0, v1), (v0 v1)),
        aq!((&'static mut A16, &'static P4), [7, 0], (v0, v1), (v0 v1)),
        aq!((&'static A16, &'static mut P4), [7, 0], (v0, v1), (v0 v1)),
        aq!((EcsIds, &'static mut P4), [ID, 0], (v0, v1), (v0 v1)),
        aq!((&'static A16, EcsIds), [7, ID], (v0, v1), (v0 v1)),
        aq!((&'static mut P4, &'static H2, &'static mut BX), [0, 1, 2], (v0, v1, v2), (v0 v1 v2)),
        aq!((&'static P4, &'static mut H2, &'static BX), [0, 1, 2], (v0, v1, v2), (v0 v1 v2)),
        aq!((EcsIds, &'static H2, &'static mut BX), [ID, 1, 2], (v0, v1, v2), (v0 v1 v2)),
        aq!((&'static mut P4, EcsIds, &'static mut BX), [0, ID, 2], (v0, v1, v2), (v0 v1 v2)),
        aq!((&'static mut P4, &'static H2, EcsIds), [0, 1, ID], (v0, v1, v2), (v0 v1 v2)),
        aq!((&'static mut L24, &'static ZD, &'static mut A64), [3, 4, 5], (v0, v1, v2), (v0 v1 v2)),
        aq!((&'static L24, &'static mut ZD, &'static A64), [3, 4, 5], (v0, v1, v2), (v0 v1 v2)),
        aq!((EcsIds, &'static mut ZD, &'static A64), [ID, 4, 5], (v0, v1, v2), (v0 v1 v2)),
        aq!((&'static L24, EcsIds, &'static A64), [3, ID, 5], (v0, v1, v2), (v0 v1 v2)),
        aq!((&'static L24, &'static mut ZD, EcsIds), [3, 4, ID], (v0, v1, v2), (v0 v1 v2)),
        aq!((&'static mut A16, &'static P4, &'static mut L24), [7, 0, 3], (v0, v1, v2), (v0 v1 v2)),
        aq!((&'static A16, &'static mut P4, &'static L24), [7, 0, 3], (v0, v1, v2), (v0 v1 v2)),
        aq!((EcsIds, &'static mut P4, &'static L24), [ID, 0, 3], (v0, v1, v2), (v0 v1 v2)),
        aq!((&'static A16, EcsIds, &'static L24), [7, ID, 3], (v0, v1, v2), (v0 v1 v2)),
        aq!((&'static A16, &'static mut P4, EcsIds), [7, 0, ID], (v0, v1, v2), (v0 v1 v2)),
        aq!((&'static mut P4, &'static H2, &'static mut BX, &'static L24), [0, 1, 2, 3], (v0, v1, v2, v3), (v0 v1 v2 v3)),
        aq!((&'static P4, &'static mut H2, &'static BX, &'static mut L24), [0, 1, 2, 3], (v0, v1, v2, v3), (v0 v1 v2 v3)),
        aq!((EcsIds, &'static H2, &'static mut BX, &'static L24), [ID, 1, 2, 3], (v0, v1, v2, v3), (v0 v1 v2 v3)),
        aq!((&'static mut P4, &'static H2, EcsIds, &'static L24), [0, 1, ID, 3], (v0, v1, v2, v3), (v0 v1 v2 v3)),
        aq!((&'static mut P4, &'static H2, &'static mut BX, EcsIds), [0, 1, 2, ID], (v0, v1, v2, v3), (v0 v1 v2 v3)),
        aq!((&'static mut L24, &'static ZD, &'static mut A64, &'static B3), [3, 4, 5, 6], (v0, v1, v2, v3), (v0 v1 v2 v3)),
        aq!((&'static L24, &'static mut ZD, &'static A64, &'static mut B3), [3, 4, 5, 6], (v0, v1, v2, v3), (v0 v1 v2 v3)),
        aq!((EcsIds, &'static mut ZD, &'static A64, &'static mut B3), [ID, 4, 5, 6], (v0, v1, v2, v3), (v0 v1 v2 v3)),
        aq!((&'static L24, &'static mut ZD, EcsIds, &'static mut B3), [3, 4, ID, 6], (v0, v1, v2, v3), (v0 v1 v2 v3)),
        aq!((&'static L24, &'static mut ZD, &'static A64, EcsIds), [3, 4, 5, ID], (v0, v1, v2, v3), (v0 v1 v2 v3)),
        aq!((&'static mut A16, &'static P4, &'static mut L24, &'static B3), [7, 0, 3, 6], (v0, v1, v2, v3), (v0 v1 v2 v3)),
        aq!((&'static A16, &'static mut P4, &'static L24, &'static mut B3), [7, 0, 3, 6], (v0, v1, v2, v3), (v0 v1 v2 v3)),
        aq!((EcsIds, &'static mut P4, &'static L24, &'static mut B3), [ID, 0, 3, 6], (v0, v1, v2, v3), (v0 v1 v2 v3)),
        aq!((&'static A16, &'static mut P4, EcsIds, &'static mut B3), [7, 0, ID, 6], (v0, v1, v2, v3), (v0 v1 v2 v3)),
        aq!((&'static A16, &'static mut P4, &'static L24, EcsIds), [7, 0, 3, ID], (v0, v1, v2, v3), (v0 v1 v2 v3)),
        aq!((&'static mut P4, &'static H2, &'static mut BX, &'static L24, &'static mut ZD), [0, 1, 2, 3, 4], (v0, v1, v2, v3, v4), (v0 v1 v2 v3 v4)),
        aq!((&'static P4, &'static mut H2, &'static BX, &'static mut L24, &'static ZD), [0, 1, 2, 3, 4], (v0, v1, v2, v3, v4), (v0 v1 v2 v3 v4)),
        aq!((EcsIds, &'static H2, &'static mut BX, &'static L24, &'static mut ZD), [ID, 1, 2, 3, 4], (v0, v1, v2, v3, v4), (v0 v1 v2 v3 v4)),
        aq!((&'static mut P4, &'static H2, EcsIds, &'static L24, &'static mut ZD), [0, 1, ID, 3, 4], (v0, v1, v2, v3, v4), (v0 v1 v2 v3 v4)),
        aq!((&'static mut P4, &'static H2, &'static mut BX, &'static L24, EcsIds), [0, 1, 2, 3, ID], (v0, v1, v2, v3, v4), (v0 v1 v2 v3 v4)),
        aq!((&'static mut L24, &'static ZD, &'static mut A64, &'static B3, &'static mut A16), [3, 4, 5, 6, 7], (v0, v1, v2, v3, v4), (v0 v1 v2 v3 v4)),
        aq!((&'static L24, &'static mut ZD, &'static A64, &'static mut B3, &'static A16), [3, 4, 5, 6, 7], (v0, v1, v2, v3, v4), (v0 v1 v2 v3 v4)),
        aq!((EcsIds, &'static mut ZD, &'static A64, &'static mut B3, &'static A16), [ID, 4, 5, 6, 7], (v0, v1, v2, v3, v4), (v0 v1 v2 v3 v4)),
        aq!((&'static L24, &'static mut ZD, EcsIds, &'static mut B3, &'static A16), [3, 4, ID, 6, 7], (v0, v1, v2, v3, v4), (v0 v1 v2 v3 v4)),
        aq!((&'static L24, &'static mut ZD, &'static A64, &'static mut B3, EcsIds), [3, 4, 5, 6, ID], (v0, v1, v2, v3, v4), (v0 v1 v2 v3 v4)),
        aq!((&'static mut A16, &'static P4, &'static mut L24, &'static B3, &'static mut N8), [7, 0, 3, 6, 9], (v0, v1, v2, v3, v4), (v0 v1 v2 v3 v4)),
        aq!((&'static A16, &'static mut P4, &'static L24, &'static mut B3, &'static N8), [7, 0, 3, 6, 9], (v0, v1, v2, v3, v4), (v0 v1 v2 v3 v4)),
        aq!((EcsIds, &'static mut P4, &'static L24, &'static mut B3, &'static N8), [ID, 0, 3, 6, 9], (v0, v1, v2, v3, v4), (v0 v1 v2 v3 v4)),
        aq!((&'static A16, &'static mut P4, EcsIds, &'static mut B3, &'static N8), [7, 0, ID, 6, 9], (v0, v1, v2, v3, v4), (v0 v1 v2 v3 v4)),
        aq!((&'static A16, &'static mut P4, &'static L24, &'static mut B3, EcsIds), [7, 0, 3, 6, ID], (v0, v1, v2, v3, v4), (v0 v1 v2 v3 v4)),
        aq!((&'static mut P4, &'static H2, &'static mut BX, &'static L24, &'static mut ZD, &'static A64), [0, 1, 2, 3, 4, 5], (v0, v1, v2, v3, v4, v5), (v0 v1 v2 v3 v4 v5)),
        aq!((&'static P4, &'static mut H2, &'static BX, &'static mut L24, &'static ZD, &'static mut A64), [0, 1, 2, 3, 4, 5], (v0, v1, v2, v3, v4, v5), (v0 v1 v2 v3 v4 v5)),
        aq!((EcsIds, &'static H2, &'static mut BX, &'static L24, &'static mut ZD, &'static A64), [ID, 1, 2, 3, 4, 5], (v0, v1, v2, v3, v4, v5), (v0 v1 v2 v3 v4 v5)),
        aq!((&'static mut P4, &'static H2, &'static mut BX, EcsIds, &'static mut ZD, &'static A64), [0, 1, 2, ID, 4, 5], (v0, v1, v2, v3, v4, v5), (v0 v1 v2 v3 v4 v5)),
        aq!((&'static mut P4, &'static H2, &'static mut BX, &'static L24, &'static mut ZD, EcsIds), [0, 1, 2, 3, 4, ID], (v0, v1, v2, v3, v4, v5), (v0 v1 v2 v3 v4 v5)),
        aq!((&'static mut L24, &'static ZD, &'static mut A64, &'static B3, &'static mut A16, &'static C12), [3, 4, 5, 6, 7, 8], (v0, v1, v2, v3, v4, v5), (v0 v1 v2 v3 v4 v5)),
        aq!((&'static L24, &'static mut ZD, &'static A64, &'static mut B3, &'static A16, &'static mut C12), [3, 4, 5, 6, 7, 8], (v0, v1, v2, v3, v4, v5), (v0 v1 v2 v3 v4 v5)),
        aq!((EcsIds, &'static mut ZD, &'static A64, &'static mut B3, &'static A16, &'static mut C12), [ID, 4, 5, 6, 7, 8], (v0, v1, v2, v3, v4, v5), (v0 v1 v2 v3 v4 v5)),
        aq!((&'static L24, &'static mut ZD, &'static A64, EcsIds, &'static A16, &'static mut C12), [3, 4, 5, ID, 7, 8], (v0, v1, v2, v3, v4, v5), (v0 v1 v2 v3 v4 v5)),
        aq!((&'static L24, &'static mut ZD, &'static A64, &'static mut B3, &'static A16, EcsIds), [3, 4, 5, 6, 7, ID], (v0, v1, v2, v3, v4, v5), (v0 v1 v2 v3 v4 v5)),
        aq!((&'static mut A16, &'static P4, &'static mut L24, &'static B3, &'static mut N8, &'static BX), [7, 0, 3, 6, 9, 2], (v0, v1, v2, v3, v4, v5), (v0 v1 v2 v3 v4 v5)),
        aq!((&'static A16, &'static mut P4, &'static L24, &'static mut B3, &'static N8, &'static mut BX), [7, 0, 3, 6, 9, 2], (v0, v1, v2, v3, v4, v5), (v0 v1 v2 v3 v4 v5)),
        aq!((EcsIds, &'static mut P4, &'static L24, &'static mut B3, &'static N8, &'static mut BX), [ID, 0, 3, 6, 9, 2], (v0, v1, v2, v3, v4, v5), (v0 v1 v2 v3 v4 v5)),
        aq!((&'static A16, &'static mut P4, &'static L24, EcsIds, &'static N8, &'static mut BX), [7, 0, 3, ID, 9, 2], (v0, v1, v2, v3, v4, v5), (v0 v1 v2 v3 v4 v5)),
        aq!((&'static A16, &'static mut P4, &'static L24, &'static mut B3, &'static N8, EcsIds), [7, 0, 3, 6, 9, ID], (v0, v1, v2, v3, v4, v5), (v0 v1 v2 v3 v4 v5)),
        aq!((&'static mut P4, &'static H2, &'static mut BX, &'static L24, &'static mut ZD, &'static A64, &'static mut B3), [0, 1, 2, 3, 4, 5, 6], (v0, v1, v2, v3, v4, v5, v6), (v0 v1 v2 v3 v4 v5 v6)),
        aq!((&'static P4, &'static mut H2, &'static BX, &'static mut L24, &'static ZD, &'static mut A64, &'static B3), [0, 1, 2, 3, 4, 5, 6], (v0, v1, v2, v3, v4, v5, v6), (v0 v1 v2 v3 v4 v5 v6)),
        aq!((EcsIds, &'static H2, &'static mut BX, &'static L24, &'static mut ZD, &'static A64, &'static mut B3), [ID, 1, 2, 3, 4, 5, 6], (v0, v1, v2, v3, v4, v5, v6), (v0 v1 v2 v3 v4 v5 v6)),
        aq!((&'static mut P4, &'static H2, &'static mut BX, EcsIds, &'static mut ZD, &'static A64, &'static mut B3), [0, 1, 2, ID, 4, 5, 6], (v0, v1, v2, v3, v4, v5, v6), (v0 v1 v2 v3 v4 v5 v6)),
        aq!((&'static mut P4, &'static H2, &'static mut BX, &'static L24, &'static mut ZD, &'static A64, EcsIds), [0, 1, 2, 3, 4, 5, ID], (v0, v1, v2, v3, v4, v5, v6), (v0 v1 v2 v3 v4 v5 v6)),
        aq!((&'static mut L24, &'static ZD, &'static mut A64, &'static B3, &'static mut A16, &'static C12, &'static mut N8), [3, 4, 5, 6, 7, 8, 9], (v0, v1, v2, v3, v4, v5, v6), (v0 v1 v2 v3 v4 v5 v6)),
        aq!((&'static L24, &'static mut ZD, &'static A64, &'static mut B3, &'static A16, &'static mut C12, &'static N8), [3, 4, 5, 6, 7, 8, 9], (v0, v1, v2, v3, v4, v5, v6), (v0 v1 v2 v3 v4 v5 v6)),
        aq!((EcsIds, &'static mut ZD, &'static A64, &'static mut B3, &'static A16, &'static mut C12, &'static N8), [ID, 4, 5, 6, 7, 8, 9], (v0, v1, v2, v3, v4, v5, v6), (v0 v1 v2 v3 v4 v5 v6)),
        aq!((&'static L24, &'static mut ZD, &'static A64, EcsIds, &'static A16, &'static mut C12, &'static N8), [3, 4, 5, ID, 7, 8, 9], (v0, v1, v2, v3, v4, v5, v6), (v0 v1 v2 v3 v4 v5 v6)),
        aq!((&'static L24, &'static mut ZD, &'static A64, &'static mut B3, &'static A16, &'static mut C12, EcsIds), [3, 4, 5, 6, 7, 8, ID], (v0, v1, v2, v3, v4, v5, v6), (v0 v1 v2 v3 v4 v5 v6)),
        aq!((&'static mut A16, &'static P4, &'static mut L24, &'static B3, &'static mut N8, &'static BX, &'static mut A64), [7, 0, 3, 6, 9, 2, 5], (v0, v1, v2, v3, v4, v5, v6), (v0 v1 v2 v3 v4 v5 v6)),
        aq!((&'static A16, &'static mut P4, &'static L24, &'static mut B3, &'static N8, &'static mut BX, &'static A64), [7, 0, 3, 6, 9, 2, 5], (v0, v1, v2, v3, v4, v5, v6), (v0 v1 v2 v3 v4 v5 v6)),
        aq!((EcsIds, &'static mut P4, &'static L24, &'static mut B3, &'static N8, &'static mut BX, &'static A64), [ID, 0, 3, 6, 9, 2, 5], (v0, v1, v2, v3, v4, v5, v6), (v0 v1 v2 v3 v4 v5 v6)),
        aq!((&'static A16, &'static mut P4, &'static L24, EcsIds, &'static N8, &'static mut BX, &'static A64), [7, 0, 3, ID, 9, 2, 5], (v0, v1, v2, v3, v4, v5, v6), (v0 v1 v2 v3 v4 v5 v6)),
        aq!((&'static A16, &'static mut P4, &'static L24, &'static mut B3, &'static N8, &'static mut BX, EcsIds), [7, 0, 3, 6, 9, 2, ID], (v0, v1, v2, v3, v4, v5, v6), (v0 v1 v2 v3 v4 v5 v6)),
        aq!((&'static mut P4, &'static H2, &'static mut BX, &'static L24, &'static mut ZD, &'static A64, &'static mut B3, &'static A16), [0, 1, 2, 3, 4, 5, 6, 7], (v0, v1, v2, v3, v4, v5, v6, v7), (v0 v1 v2 v3 v4 v5 v6 v7)),
        aq!((&'static P4, &'static mut H2, &'static BX, &'static mut L24, &'static ZD, &'static mut A64, &'static B3, &'static mut A16), [0, 1, 2, 3, 4, 5, 6, 7], (v0, v1, v2, v3, v4, v5, v6, v7), (v0 v1 v2 v3 v4 v5 v6 v7)),
        aq!((EcsIds, &'static H2, &'static mut BX, &'static L24, &'static mut ZD, &'static A64, &'static mut B3, &'static A16), [ID, 1, 2, 3, 4, 5, 6, 7], (v0, v1, v2, v3, v4, v5, v6, v7), (v0 v1 v2 v3 v4 v5 v6 v7)),
        aq!((&'static mut P4, &'static H2, &'static mut BX, &'static L24, EcsIds, &'static A64, &'static mut B3, &'static A16), [0, 1, 2, 3, ID, 5, 6, 7], (v0, v1, v2, v3, v4, v5, v6, v7), (v0 v1 v2 v3 v4 v5 v6 v7)),
        aq!((&'static mut P4, &'static H2, &'static mut BX, &'static L24, &'static mut ZD, &'static A64, &'static mut B3, EcsIds), [0, 1, 2, 3, 4, 5, 6, ID], (v0, v1, v2, v3, v4, v5, v6, v7), (v0 v1 v2 v3 v4 v5 v6 v7)),
        aq!((&'static mut L24, &'static ZD, &'static mut A64, &'static B3, &'static mut A16, &'static C12, &'static mut N8, &'static P4), [3, 4, 5, 6, 7, 8, 9, 0], (v0, v1, v2, v3, v4, v5, v6, v7), (v0 v1 v2 v3 v4 v5 v6 v7)),
        aq!((&'static L24, &'static mut ZD, &'static A64, &'static mut B3, &'static A16, &'static mut C12, &'static N8, &'static mut P4), [3, 4, 5, 6, 7, 8, 9, 0], (v0, v1, v2, v3, v4, v5, v6, v7), (v0 v1 v2 v3 v4 v5 v6 v7)),
        aq!((EcsIds, &'static mut ZD, &'static A64, &'static mut B3, &'static A16, &'static mut C12, &'static N8, &'static mut P4), [ID, 4, 5, 6, 7, 8, 9, 0], (v0, v1, v2, v3, v4, v5, v6, v7), (v0 v1 v2 v3 v4 v5 v6 v7)),
        aq!((&'static L24, &'static mut ZD, &'static A64, &'static mut B3, EcsIds, &'static mut C12, &'static N8, &'static mut P4), [3, 4, 5, 6, ID, 8, 9, 0], (v0, v1, v2, v3, v4, v5, v6, v7), (v0 v1 v2 v3 v4 v5 v6 v7)),
        aq!((&'static L24, &'static mut ZD, &'static A64, &'static mut B3, &'static A16, &'static mut C12, &'static N8, EcsIds), [3, 4, 5, 6, 7, 8, 9, ID], (v0, v1, v2, v3, v4, v5, v6, v7), (v0 v1 v2 v3 v4 v5 v6 v7)),
        aq!((&'static mut A16, &'static P4, &'static mut L24, &'static B3, &'static mut N8, &'static BX, &'static mut A64, &'static C12), [7, 0, 3, 6, 9, 2, 5, 8], (v0, v1, v2, v3, v4, v5, v6, v7), (v0 v1 v2 v3 v4 v5 v6 v7)),
        aq!((&'static A16, &'static mut P4, &'static L24, &'static mut B3, &'static N8, &'static mut BX, &'static A64, &'static mut C12), [7, 0, 3, 6, 9, 2, 5, 8], (v0, v1, v2, v3, v4, v5, v6, v7), (v0 v1 v2 v3 v4 v5 v6 v7)),
        aq!((EcsIds, &'static mut P4, &'static L24, &'static mut B3, &'static N8, &'static mut BX, &'static A64, &'static mut C12), [ID, 0, 3, 6, 9, 2, 5, 8], (v0, v1, v2, v3, v4, v5, v6, v7), (v0 v1 v2 v3 v4 v5 v6 v7)),
        aq!((&'static A16, &'static mut P4, &'static L24, &'static mut B3, EcsIds, &'static mut BX, &'static A64, &'static mut C12), [7, 0, 3, 6, ID, 2, 5, 8], (v0, v1, v2, v3, v4, v5, v6, v7), (v0 v1 v2 v3 v4 v5 v6 v7)),
        aq!((&'static A16, &'static mut P4, &'static L24, &'static mut B3, &'static N8, &'static mut BX, &'static A64, EcsIds), [7, 0, 3, 6, 9, 2, 5, ID], (v0, v1, v2, v3, v4, v5, v6, v7), (v0 v1 v2 v3 v4 v5 v6 v7)),
        aq!((&'static mut P4, &'static H2, &'static mut BX, &'static L24, &'static mut ZD, &'static A64, &'static mut B3, &'static A16, &'static mut C12), [0, 1, 2, 3, 4, 5, 6, 7, 8], (v0, v1, v2, v3, v4, v5, v6, v7, v8), (v0 v1 v2 v3 v4 v5 v6 v7 v8)),
        aq!((&'static P4, &'static mut H2, &'static BX, &'static mut L24, &'static ZD, &'static mut A64, &'static B3, &'static mut A16, &'static C12), [0, 1, 2, 3, 4, 5, 6, 7, 8], (v0, v1, v2, v3, v4, v5, v6, v7, v8), (v0 v1 v2 v3 v4 v5 v6 v7 v8)),
        aq!((EcsIds, &'static H2, &'static mut BX, &'static L24, &'static mut ZD, &'static A64, &'static mut B3, &'static A16, &'static mut C12), [ID, 1, 2, 3, 4, 5, 6, 7, 8], (v0, v1, v2, v3, v4, v5, v6, v7, v8), (v0 v1 v2 v3 v4 v5 v6 v7 v8)),
        aq!((&'static mut P4, &'static H2, &'static mut BX, &'static L24, EcsIds, &'static A64, &'static mut B3, &'static A16, &'static mut C12), [0, 1, 2, 3, ID, 5, 6, 7, 8], (v0, v1, v2, v3, v4, v5, v6, v7, v8), (v0 v1 v2 v3 v4 v5 v6 v7 v8)),
        aq!((&'static mut P4, &'static H2, &'static mut BX, &'static L24, &'static mut ZD, &'static A64, &'static mut B3, &'static A16, EcsIds), [0, 1, 2, 3, 4, 5, 6, 7, ID], (v0, v1, v2, v3, v4, v5, v6, v7, v8), (v0 v1 v2 v3 v4 v5 v6 v7 v8)),
        aq!((&'static mut L24, &'static ZD, &'static mut A64, &'static B3, &'static mut A16, &'static C12, &'static mut N8, &'static P4, &'static mut H2), [3, 4, 5, 6, 7, 8, 9, 0, 1], (v0, v1, v2, v3, v4, v5, v6, v7, v8), (v0 v1 v2 v3 v4 v5 v6 v7 v8)),
        aq!((&'static L24, &'static mut ZD, &'static A64, &'static mut B3, &'static A16, &'static mut C12, &'static N8, &'static mut P4, &'static H2), [3, 4, 5, 6, 7, 8, 9, 0, 1], (v0, v1, v2, v3, v4, v5, v6, v7, v8), (v0 v1 v2 v3 v4 v5 v6 v7 v8)),
        aq!((EcsIds, &'static mut ZD, &'static A64, &'static mut B3, &'static A16, &'static mut C12, &'static N8, &'static mut P4, &'static H2), [ID, 4, 5, 6, 7, 8, 9, 0, 1], (v0, v1, v2, v3, v4, v5, v6, v7, v8), (v0 v1 v2 v3 v4 v5 v6 v7 v8)),
        aq!((&'static L24, &'static mut ZD, &'static A64, &'static mut B3, EcsIds, &'static mut C12, &'static N8, &'static mut P4, &'static H2), [3, 4, 5, 6, ID, 8, 9, 0, 1], (v0, v1, v2, v3, v4, v5, v6, v7, v8), (v0 v1 v2 v3 v4 v5 v6 v7 v8)),
        aq!((&'static L24, &'static mut ZD, &'static A64, &'static mut B3, &'static A16, &'static mut C12, &'static N8, &'static mut P4, EcsIds), [3, 4, 5, 6, 7, 8, 9, 0, ID], (v0, v1, v2, v3, v4, v5, v6, v7, v8), (v0 v1 v2 v3 v4 v5 v6 v7 v8)),
        aq!((&'static mut A16, &'static P4, &'static mut L24, &'static B3, &'static mut N8, &'static BX, &'static mut A64, &'static C12, &'static mut H2), [7, 0, 3, 6, 9, 2, 5, 8, 1], (v0, v1, v2, v3, v4, v5, v6, v7, v8), (v0 v1 v2 v3 v4 v5 v6 v7 v8)),
        aq!((&'static A16, &'static mut P4, &'static L24, &'static mut B3, &'static N8, &'static mut BX, &'static A64, &'static mut C12, &'static H2), [7, 0, 3, 6, 9, 2, 5, 8, 1], (v0, v1, v2, v3, v4, v5, v6, v7, v8), (v0 v1 v2 v3 v4 v5 v6 v7 v8)),
        aq!((EcsIds, &'static mut P4, &'static L24, &'static mut B3, &'static N8, &'static mut BX, &'static A64, &'static mut C12, &'static H2), [ID, 0, 3, 6, 9, 2, 5, 8, 1], (v0, v1, v2, v3, v4, v5, v6, v7, v8), (v0 v1 v2 v3 v4 v5 v6 v7 v8)),
        aq!((&'static A16, &'static mut P4, &'static L24, &'static mut B3, EcsIds, &'static mut BX, &'static A64, &'static mut C12, &'static H2), [7, 0, 3, 6, ID, 2, 5, 8, 1], (v0, v1, v2, v3, v4, v5, v6, v7, v8), (v0 v1 v2 v3 v4 v5 v6 v7 v8)),
        aq!((&'static A16, &'static mut P4, &'static L24, &'static mut B3, &'static N8, &'static mut BX, &'static A64, &'static mut C12, EcsIds), [7, 0, 3, 6, 9, 2, 5, 8, ID], (v0, v1, v2, v3, v4, v5, v6, v7, v8), (v0 v1 v2 v3 v4 v5 v6 v7 v8)),
        aq!((&'static mut P4, &'static H2, &'static mut BX, &'static L24, &'static mut ZD, &'static A64, &'static mut B3, &'static A16, &'static mut C12, &'static N8), [0, 1, 2, 3, 4, 5, 6, 7, 8, 9], (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9), (v0 v1 v2 v3 v4 v5 v6 v7 v8 v9)),
        aq!((&'static P4, &'static mut H2, &'static BX, &'static mut L24, &'static ZD, &'static mut A64, &'static B3, &'static mut A16, &'static C12, &'static mut N8), [0, 1, 2, 3, 4, 5, 6, 7, 8, 9], (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9), (v0 v1 v2 v3 v4 v5 v6 v7 v8 v9)),
        aq!((EcsIds, &'static H2, &'static mut BX, &'static L24, &'static mut ZD, &'static A64, &'static mut B3, &'static A16, &'static mut C12, &'static N8), [ID, 1, 2, 3, 4, 5, 6, 7, 8, 9], (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9), (v0 v1 v2 v3 v4 v5 v6 v7 v8 v9)),
        aq!((&'static mut P4, &'static H2, &'static mut BX, &'static L24, &'static mut ZD, EcsIds, &'static mut B3, &'static A16, &'static mut C12, &'static N8), [0, 1, 2, 3, 4, ID, 6, 7, 8, 9], (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9), (v0 v1 v2 v3 v4 v5 v6 v7 v8 v9)),
        aq!((&'static mut P4, &'static H2, &'static mut BX, &'static L24, &'static mut ZD, &'static A64, &'static mut B3, &'static A16, &'static mut C12, EcsIds), [0, 1, 2, 3, 4, 5, 6, 7, 8, ID], (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9), (v0 v1 v2 v3 v4 v5 v6 v7 v8 v9)),
        aq!((&'static mut L24, &'static ZD, &'static mut A64, &'static B3, &'static mut A16, &'static C12, &'static mut N8, &'static P4, &'static mut H2, &'static BX), [3, 4, 5, 6, 7, 8, 9, 0, 1, 2], (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9), (v0 v1 v2 v3 v4 v5 v6 v7 v8 v9)),
        aq!((&'static L24, &'static mut ZD, &'static A64, &'static mut B3, &'static A16, &'static mut C12, &'static N8, &'static mut P4, &'static H2, &'static mut BX), [3, 4, 5, 6, 7, 8, 9, 0, 1, 2], (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9), (v0 v1 v2 v3 v4 v5 v6 v7 v8 v9)),
        aq!((EcsIds, &'static mut ZD, &'static A64, &'static mut B3, &'static A16, &'static mut C12, &'static N8, &'static mut P4, &'static H2, &'static mut BX), [ID, 4, 5, 6, 7, 8, 9, 0, 1, 2], (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9), (v0 v1 v2 v3 v4 v5 v6 v7 v8 v9)),
        aq!((&'static L24, &'static mut ZD, &'static A64, &'static mut B3, &'static A16, EcsIds, &'static N8, &'static mut P4, &'static H2, &'static mut BX), [3, 4, 5, 6, 7, ID, 9, 0, 1, 2], (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9), (v0 v1 v2 v3 v4 v5 v6 v7 v8 v9)),
        aq!((&'static L24, &'static mut ZD, &'static A64, &'static mut B3, &'static A16, &'static mut C12, &'static N8, &'static mut P4, &'static H2, EcsIds), [3, 4, 5, 6, 7, 8, 9, 0, 1, ID], (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9), (v0 v1 v2 v3 v4 v5 v6 v7 v8 v9)),
        aq!((&'static mut A16, &'static P4, &'static mut L24, &'static B3, &'static mut N8, &'static BX, &'static mut A64, &'static C12, &'static mut H2, &'static ZD), [7, 0, 3, 6, 9, 2, 5, 8, 1, 4], (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9), (v0 v1 v2 v3 v4 v5 v6 v7 v8 v9)),
        aq!((&'static A16, &'static mut P4, &'static L24, &'static mut B3, &'static N8, &'static mut BX, &'static A64, &'static mut C12, &'static H2, &'static mut ZD), [7, 0, 3, 6, 9, 2, 5, 8, 1, 4], (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9), (v0 v1 v2 v3 v4 v5 v6 v7 v8 v9)),
        aq!((EcsIds, &'static mut P4, &'static L24, &'static mut B3, &'static N8, &'static mut BX, &'static A64, &'static mut C12, &'static H2, &'static mut ZD), [ID, 0, 3, 6, 9, 2, 5, 8, 1, 4], (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9), (v0 v1 v2 v3 v4 v5 v6 v7 v8 v9)),
        aq!((&'static A16, &'static mut P4, &'static L24, &'static mut B3, &'static N8, EcsIds, &'static A64, &'static mut C12, &'static H2, &'static mut ZD), [7, 0, 3, 6, 9, ID, 5, 8, 1, 4], (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9), (v0 v1 v2 v3 v4 v5 v6 v7 v8 v9)),
        aq!((&'static A16, &'static mut P4, &'static L24, &'static mut B3, &'static N8, &'static mut BX, &'static A64, &'static mut C12, &'static H2, EcsIds), [7, 0, 3, 6, 9, 2, 5, 8, 1, ID], (v0, v1, v2, v3, v4, v5, v6, v7, v8, v9), (v0 v1 v2 v3 v4 v5 v6 v7 v8 v9)),
    ]
}

pub fn positions() -> Vec<crate::sysq::QDef> {
    use crate::sysq::sq;
    vec![
        sq!((&'static P4), [(0, false)]),
        sq!((&'static mut P4), [(0, true)]),
        sq!((&'static P4, &'static H2), [(0, false), (1, false)]),
        sq!((&'static mut P4, &'static H2), [(0, true), (1, false)]),
        sq!((&'static A16, &'static P4), [(7, false), (0, false)]),
        sq!((&'static A16, &'static mut P4), [(7, false), (0, true)]),
        sq!((&'static P4, &'static H2, &'static BX), [(0, false), (1, false), (2, false)]),
        sq!((&'static mut P4, &'static H2, &'static BX), [(0, true), (1, false), (2, false)]),
        sq!((&'static A16, &'static P4, &'static H2), [(7, false), (0, false), (1, false)]),
        sq!((&'static A16, &'static mut P4, &'static H2), [(7, false), (0, true), (1, false)]),
        sq!((&'static B3, &'static A16, &'static P4), [(6, false), (7, false), (0, false)]),
        sq!((&'static B3, &'static A16, &'static mut P4), [(6, false), (7, false), (0, true)]),
        sq!((&'static P4, &'static H2, &'static BX, &'static L24), [(0, false), (1, false), (2, false), (3, false)]),
        sq!((&'static mut P4, &'static H2, &'static BX, &'static L24), [(0, true), (1, false), (2, false), (3, false)]),
        sq!((&'static A16, &'static P4, &'static H2, &'static BX), [(7, false), (0, false), (1, false), (2, false)]),
        sq!((&'static A16, &'static mut P4, &'static H2, &'static BX), [(7, false), (0, true), (1, false), (2, false)]),
        sq!((&'static B3, &'static A16, &'static P4, &'static H2), [(6, false), (7, false), (0, false), (1, false)]),
        sq!((&'static B3, &'static A16, &'static mut P4, &'static H2), [(6, false), (7, false), (0, true), (1, false)]),
        sq!((&'static A64, &'static B3, &'static A16, &'static P4), [(5, false), (6, false), (7, false), (0, false)]),
        sq!((&'static A64, &'static B3, &'static A16, &'static mut P4), [(5, false), (6, false), (7, false), (0, true)]),
        sq!((&'static P4, &'static H2, &'static BX, &'static L24, &'static ZD), [(0, false), (1, false), (2, false), (3, false), (4, false)]),
        sq!((&'static mut P4, &'static H2, &'static BX, &'static L24, &'static ZD), [(0, true), (1, false), (2, false), (3, false), (4, false)]),
        sq!((&'static A16, &'static P4, &'static H2, &'static BX, &'static L24), [(7, false), (0, false), (1, false), (2, false), (3, false)]),
        sq!((&'static A16, &'static mut P4, &'static H2, &'static BX, &'static L24), [(7, false), (0, true), (1, false), (2, false), (3, false)]),
        sq!((&'static B3, &'static A16, &'static P4, &'static H2, &'static BX), [(6, false), (7, false), (0, false), (1, false), (2, false)]),
        sq!((&'static B3, &'static A16, &'static mut P4, &'static H2, &'static BX), [(6, false), (7, false), (0, true), (1, false), (2, false)]),
        sq!((&'static A64, &'static B3, &'static A16, &'static P4, &'static H2), [(5, false), (6, false), (7, false), (0, false), (1, false)]),
        sq!((&'static A64, &'static B3, &'static A16, &'static mut P4, &'static H2), [(5, false), (6, false), (7, false), (0, true), (1, false)]),
        sq!((&'static ZD, &'static A64, &'static B3, &'static A16, &'static P4), [(4, false), (5, false), (6, false), (7, false), (0, false)]),
        sq!((&'static ZD, &'static A64, &'static B3, &'static A16, &'static mut P4), [(4, false), (5, false), (6, false), (7, false), (0, true)]),
        sq!((&'static P4, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64), [(0, false), (1, false), (2, false), (3, false), (4, false), (5, false)]),
        sq!((&'static mut P4, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64), [(0, true), (1, false), (2, false), (3, false), (4, false), (5, false)]),
        sq!((&'static A16, &'static P4, &'static H2, &'static BX, &'static L24, &'static ZD), [(7, false), (0, false), (1, false), (2, false), (3, false), (4, false)]),
        sq!((&'static A16, &'static mut P4, &'static H2, &'static BX, &'static L24, &'static ZD), [(7, false), (0, true), (1, false), (2, false), (3, false), (4, false)]),
        sq!((&'static B3, &'static A16, &'static P4, &'static H2, &'static BX, &'static L24), [(6, false), (7, false), (0, false), (1, false), (2, false), (3, false)]),
        sq!((&'static B3, &'static A16, &'static mut P4, &'static H2, &'static BX, &'static L24), [(6, false), (7, false), (0, true), (1, false), (2, false), (3, false)]),
        sq!((&'static A64, &'static B3, &'static A16, &'static P4, &'static H2, &'static BX), [(5, false), (6, false), (7, false), (0, false), (1, false), (2, false)]),
        sq!((&'static A64, &'static B3, &'static A16, &'static mut P4, &'static H2, &'static BX), [(5, false), (6, false), (7, false), (0, true), (1, false), (2, false)]),
        sq!((&'static ZD, &'static A64, &'static B3, &'static A16, &'static P4, &'static H2), [(4, false), (5, false), (6, false), (7, false), (0, false), (1, false)]),
        sq!((&'static ZD, &'static A64, &'static B3, &'static A16, &'static mut P4, &'static H2), [(4, false), (5, false), (6, false), (7, false), (0, true), (1, false)]),
        sq!((&'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, &'static P4), [(3, false), (4, false), (5, false), (6, false), (7, false), (0, false)]),
        sq!((&'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, &'static mut P4), [(3, false), (4, false), (5, false), (6, false), (7, false), (0, true)]),
        sq!((&'static P4, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3), [(0, false), (1, false), (2, false), (3, false), (4, false), (5, false), (6, false)]),
        sq!((&'static mut P4, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3), [(0, true), (1, false), (2, false), (3, false), (4, false), (5, false), (6, false)]),
        sq!((&'static A16, &'static P4, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64), [(7, false), (0, false), (1, false), (2, false), (3, false), (4, false), (5, false)]),
        sq!((&'static A16, &'static mut P4, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64), [(7, false), (0, true), (1, false), (2, false), (3, false), (4, false), (5, false)]),
        sq!((&'static B3, &'static A16, &'static P4, &'static H2, &'static BX, &'static L24, &'static ZD), [(6, false), (7, false), (0, false), (1, false), (2, false), (3, false), (4, false)]),
        sq!((&'static B3, &'static A16, &'static mut P4, &'static H2, &'static BX, &'static L24, &'static ZD), [(6, false), (7, false), (0, true), (1, false), (2, false), (3, false), (4, false)]),
        sq!((&'static A64, &'static B3, &'static A16, &'static P4, &'static H2, &'static BX, &'static L24), [(5, false), (6, false), (7, false), (0, false), (1, false), (2, false), (3, false)]),
        sq!((&'static A64, &'static B3, &'static A16, &'static mut P4, &'static H2, &'static BX, &'static L24), [(5, false), (6, false), (7, false), (0, true), (1, false), (2, false), (3, false)]),
        sq!((&'static ZD, &'static A64, &'static B3, &'static A16, &'static P4, &'static H2, &'static BX), [(4, false), (5, false), (6, false), (7, false), (0, false), (1, false), (2, false)]),
        sq!((&'static ZD, &'static A64, &'static B3, &'static A16, &'static mut P4, &'static H2, &'static BX), [(4, false), (5, false), (6, false), (7, false), (0, true), (1, false), (2, false)]),
        sq!((&'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, &'static P4, &'static H2), [(3, false), (4, false), (5, false), (6, false), (7, false), (0, false), (1, false)]),
        sq!((&'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, &'static mut P4, &'static H2), [(3, false), (4, false), (5, false), (6, false), (7, false), (0, true), (1, false)]),
        sq!((&'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, &'static P4), [(2, false), (3, false), (4, false), (5, false), (6, false), (7, false), (0, false)]),
        sq!((&'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, &'static mut P4), [(2, false), (3, false), (4, false), (5, false), (6, false), (7, false), (0, true)]),
        sq!((&'static P4, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16), [(0, false), (1, false), (2, false), (3, false), (4, false), (5, false), (6, false), (7, false)]),
        sq!((&'static mut P4, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16), [(0, true), (1, false), (2, false), (3, false), (4, false), (5, false), (6, false), (7, false)]),
        sq!((&'static A16, &'static P4, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3), [(7, false), (0, false), (1, false), (2, false), (3, false), (4, false), (5, false), (6, false)]),
        sq!((&'static A16, &'static mut P4, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3), [(7, false), (0, true), (1, false), (2, false), (3, false), (4, false), (5, false), (6, false)]),
        sq!((&'static B3, &'static A16, &'static P4, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64), [(6, false), (7, false), (0, false), (1, false), (2, false), (3, false), (4, false), (5, false)]),
        sq!((&'static B3, &'static A16, &'static mut P4, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64), [(6, false), (7, false), (0, true), (1, false), (2, false), (3, false), (4, false), (5, false)]),
        sq!((&'static A64, &'static B3, &'static A16, &'static P4, &'static H2, &'static BX, &'static L24, &'static ZD), [(5, false), (6, false), (7, false), (0, false), (1, false), (2, false), (3, false), (4, false)]),
        sq!((&'static A64, &'static B3, &'static A16, &'static mut P4, &'static H2, &'static BX, &'static L24, &'static ZD), [(5, false), (6, false), (7, false), (0, true), (1, false), (2, false), (3, false), (4, false)]),
        sq!((&'static ZD, &'static A64, &'static B3, &'static A16, &'static P4, &'static H2, &'static BX, &'static L24), [(4, false), (5, false), (6, false), (7, false), (0, false), (1, false), (2, false), (3, false)]),
        sq!((&'static ZD, &'static A64, &'static B3, &'static A16, &'static mut P4, &'static H2, &'static BX, &'static L24), [(4, false), (5, false), (6, false), (7, false), (0, true), (1, false), (2, false), (3, false)]),
        sq!((&'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, &'static P4, &'static H2, &'static BX), [(3, false), (4, false), (5, false), (6, false), (7, false), (0, false), (1, false), (2, false)]),
        sq!((&'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, &'static mut P4, &'static H2, &'static BX), [(3, false), (4, false), (5, false), (6, false), (7, false), (0, true), (1, false), (2, false)]),
        sq!((&'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, &'static P4, &'static H2), [(2, false), (3, false), (4, false), (5, false), (6, false), (7, false), (0, false), (1, false)]),
        sq!((&'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, &'static mut P4, &'static H2), [(2, false), (3, false), (4, false), (5, false), (6, false), (7, false), (0, true), (1, false)]),
        sq!((&'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, &'static P4), [(1, false), (2, false), (3, false), (4, false), (5, false), (6, false), (7, false), (0, false)]),
        sq!((&'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, &'static mut P4), [(1, false), (2, false), (3, false), (4, false), (5, false), (6, false), (7, false), (0, true)]),
        sq!((&'static P4, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, EcsIds), [(0, false), (1, false), (2, false), (3, false), (4, false), (5, false), (6, false), (7, false)]),
        sq!((&'static mut P4, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, EcsIds), [(0, true), (1, false), (2, false), (3, false), (4, false), (5, false), (6, false), (7, false)]),
        sq!((&'static A16, &'static P4, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16), [(7, false), (0, false), (1, false), (2, false), (3, false), (4, false), (5, false), (6, false), (7, false)]),
        sq!((&'static A16, &'static mut P4, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16), [(7, false), (0, true), (1, false), (2, false), (3, false), (4, false), (5, false), (6, false), (7, false)]),
        sq!((&'static B3, &'static A16, &'static P4, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3), [(6, false), (7, false), (0, false), (1, false), (2, false), (3, false), (4, false), (5, false), (6, false)]),
        sq!((&'static B3, &'static A16, &'static mut P4, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3), [(6, false), (7, false), (0, true), (1, false), (2, false), (3, false), (4, false), (5, false), (6, false)]),
        sq!((&'static A64, &'static B3, &'static A16, &'static P4, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64), [(5, false), (6, false), (7, false), (0, false), (1, false), (2, false), (3, false), (4, false), (5, false)]),
        sq!((&'static A64, &'static B3, &'static A16, &'static mut P4, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64), [(5, false), (6, false), (7, false), (0, true), (1, false), (2, false), (3, false), (4, false), (5, false)]),
        sq!((&'static ZD, &'static A64, &'static B3, &'static A16, &'static P4, &'static H2, &'static BX, &'static L24, &'static ZD), [(4, false), (5, false), (6, false), (7, false), (0, false), (1, false), (2, false), (3, false), (4, false)]),
        sq!((&'static ZD, &'static A64, &'static B3, &'static A16, &'static mut P4, &'static H2, &'static BX, &'static L24, &'static ZD), [(4, false), (5, false), (6, false), (7, false), (0, true), (1, false), (2, false), (3, false), (4, false)]),
        sq!((&'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, &'static P4, &'static H2, &'static BX, &'static L24), [(3, false), (4, false), (5, false), (6, false), (7, false), (0, false), (1, false), (2, false), (3, false)]),
        sq!((&'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, &'static mut P4, &'static H2, &'static BX, &'static L24), [(3, false), (4, false), (5, false), (6, false), (7, false), (0, true), (1, false), (2, false), (3, false)]),
        sq!((&'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, &'static P4, &'static H2, &'static BX), [(2, false), (3, false), (4, false), (5, false), (6, false), (7, false), (0, false), (1, false), (2, false)]),
        sq!((&'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, &'static mut P4, &'static H2, &'static BX), [(2, false), (3, false), (4, false), (5, false), (6, false), (7, false), (0, true), (1, false), (2, false)]),
        sq!((&'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, &'static P4, &'static H2), [(1, false), (2, false), (3, false), (4, false), (5, false), (6, false), (7, false), (0, false), (1, false)]),
        sq!((&'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, &'static mut P4, &'static H2), [(1, false), (2, false), (3, false), (4, false), (5, false), (6, false), (7, false), (0, true), (1, false)]),
        sq!((EcsIds, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, &'static P4), [(1, false), (2, false), (3, false), (4, false), (5, false), (6, false), (7, false), (0, false)]),
        sq!((EcsIds, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, &'static mut P4), [(1, false), (2, false), (3, false), (4, false), (5, false), (6, false), (7, false), (0, true)]),
        sq!((&'static P4, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, EcsIds, EcsIds), [(0, false), (1, false), (2, false), (3, false), (4, false), (5, false), (6, false), (7, false)]),
        sq!((&'static mut P4, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, EcsIds, EcsIds), [(0, true), (1, false), (2, false), (3, false), (4, false), (5, false), (6, false), (7, false)]),
        sq!((&'static A16, &'static P4, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, EcsIds), [(7, false), (0, false), (1, false), (2, false), (3, false), (4, false), (5, false), (6, false), (7, false)]),
        sq!((&'static A16, &'static mut P4, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, EcsIds), [(7, false), (0, true), (1, false), (2, false), (3, false), (4, false), (5, false), (6, false), (7, false)]),
        sq!((&'static B3, &'static A16, &'static P4, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16), [(6, false), (7, false), (0, false), (1, false), (2, false), (3, false), (4, false), (5, false), (6, false), (7, false)]),
        sq!((&'static B3, &'static A16, &'static mut P4, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16), [(6, false), (7, false), (0, true), (1, false), (2, false), (3, false), (4, false), (5, false), (6, false), (7, false)]),
        sq!((&'static A64, &'static B3, &'static A16, &'static P4, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3), [(5, false), (6, false), (7, false), (0, false), (1, false), (2, false), (3, false), (4, false), (5, false), (6, false)]),
        sq!((&'static A64, &'static B3, &'static A16, &'static mut P4, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3), [(5, false), (6, false), (7, false), (0, true), (1, false), (2, false), (3, false), (4, false), (5, false), (6, false)]),
        sq!((&'static ZD, &'static A64, &'static B3, &'static A16, &'static P4, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64), [(4, false), (5, false), (6, false), (7, false), (0, false), (1, false), (2, false), (3, false), (4, false), (5, false)]),
        sq!((&'static ZD, &'static A64, &'static B3, &'static A16, &'static mut P4, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64), [(4, false), (5, false), (6, false), (7, false), (0, true), (1, false), (2, false), (3, false), (4, false), (5, false)]),
        sq!((&'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, &'static P4, &'static H2, &'static BX, &'static L24, &'static ZD), [(3, false), (4, false), (5, false), (6, false), (7, false), (0, false), (1, false), (2, false), (3, false), (4, false)]),
        sq!((&'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, &'static mut P4, &'static H2, &'static BX, &'static L24, &'static ZD), [(3, false), (4, false), (5, false), (6, false), (7, false), (0, true), (1, false), (2, false), (3, false), (4, false)]),
        sq!((&'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, &'static P4, &'static H2, &'static BX, &'static L24), [(2, false), (3, false), (4, false), (5, false), (6, false), (7, false), (0, false), (1, false), (2, false), (3, false)]),
        sq!((&'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, &'static mut P4, &'static H2, &'static BX, &'static L24), [(2, false), (3, false), (4, false), (5, false), (6, false), (7, false), (0, true), (1, false), (2, false), (3, false)]),
        sq!((&'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, &'static P4, &'static H2, &'static BX), [(1, false), (2, false), (3, false), (4, false), (5, false), (6, false), (7, false), (0, false), (1, false), (2, false)]),
        sq!((&'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, &'static mut P4, &'static H2, &'static BX), [(1, false), (2, false), (3, false), (4, false), (5, false), (6, false), (7, false), (0, true), (1, false), (2, false)]),
        sq!((EcsIds, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, &'static P4, &'static H2), [(1, false), (2, false), (3, false), (4, false), (5, false), (6, false), (7, false), (0, false), (1, false)]),
        sq!((EcsIds, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, &'static mut P4, &'static H2), [(1, false), (2, false), (3, false), (4, false), (5, false), (6, false), (7, false), (0, true), (1, false)]),
        sq!((EcsIds, EcsIds, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, &'static P4), [(1, false), (2, false), (3, false), (4, false), (5, false), (6, false), (7, false), (0, false)]),
        sq!((EcsIds, EcsIds, &'static H2, &'static BX, &'static L24, &'static ZD, &'static A64, &'static B3, &'static A16, &'static mut P4), [(1, false), (2, false), (3, false), (4, false), (5, false), (6, false), (7, false), (0, true)]),
    ]
}
