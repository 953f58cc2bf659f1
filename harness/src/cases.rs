//! Sessions that use every part of the protocol.
use std::sync::{Arc, OnceLock};

use crate::{
    drive::Read,
    rsa::Key,
    scen::{self, Item},
    server::{Cfg, Plugin},
    wire::OkData,
};

pub fn key() -> Arc<Key> {
    static KEY: OnceLock<Arc<Key>> = OnceLock::new();
    KEY.get_or_init(|| Arc::new(Key::generate(512, 1))).clone()
}

#[derive(Clone)]
pub struct Case {
    pub name: &'static str,
    pub cfg: fn() -> Cfg,
    pub items: fn() -> Vec<Item>,
    pub secure: bool,
    /// what is sent is randomized
    pub random: bool,
    /// let the client ask for the packet size
    pub settings: bool,
    /// send a lot of data
    pub big: usize,
}

pub const CASES: &[Case] = &[
    Case {
        name: "query",
        cfg: Cfg::default,
        items: || vec![scen::query(0, 2, Read::All), scen::execute(1, 0)],
        secure: false,
        random: false,
        settings: false,
        big: 0,
    },
    Case {
        name: "unread results",
        cfg: Cfg::default,
        items: || {
            vec![
                scen::query(0, 11, Read::Next(0)),
                scen::query(1, 7, Read::Next(1)),
                scen::execute(2, 1),
                scen::query(3, 4, Read::All),
                scen::query(4, 3, Read::Finish),
            ]
        },
        secure: false,
        random: false,
        settings: false,
        big: 0,
    },
    Case {
        name: "statements",
        cfg: || Cfg {
            caps: scen::caps(false),
            plugin: Plugin::Sha2,
            ..Cfg::default()
        },
        items: || {
            vec![
                scen::prepare(0, 2, 2, &[(2, Some(Read::All)), (0, None), (5, Some(Read::Next(1)))]),
                scen::prepare_fails(1),
                scen::prepare(2, 0, 0, &[(1, None)]),
                scen::cleanup(),
            ]
        },
        secure: false,
        random: false,
        settings: true,
        big: 0,
    },
    Case {
        name: "switch to sha2, full, secure",
        cfg: || Cfg {
            switch: Some((Plugin::Sha2, (40..60).collect())),
            cached: false,
            secure: true,
            ok: OkData {
                info: "welcome".into(),
                ..OkData::new(0, 0)
            },
            ..Cfg::default()
        },
        items: || vec![scen::query(0, 3, Read::All)],
        secure: true,
        random: false,
        settings: false,
        big: 0,
    },
    Case {
        name: "sha2, key requested",
        cfg: || Cfg {
            plugin: Plugin::Sha2,
            cached: false,
            key: Some(key()),
            ..Cfg::default()
        },
        items: || vec![scen::query(0, 3, Read::All)],
        secure: false,
        random: true,
        settings: false,
        big: 0,
    },
    Case {
        name: "refused password",
        cfg: || Cfg {
            password: "other".into(),
            switch: Some((Plugin::Native, (60..80).collect())),
            ..Cfg::default()
        },
        items: Vec::new,
        secure: false,
        random: false,
        settings: false,
        big: 0,
    },
];

