//! Written by make.py.
#![allow(warnings)]
mod schema {
    #[xsd::all(schema = "schemas/h010/main.xsd")]
    pub mod h010 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Tree Forest Ping Pong Game }
    }
    #[xsd::all(schema = "schemas/s003/main.xsd")]
    pub mod s003 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Tundra Ember Delta Umber Iris Cobalt }
    }
    #[xsd::all(schema = "schemas/s007/main.xsd")]
    pub mod s007 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Amber Yarrow Harbor Meadow Tundra Ember Estuary Iris Cinder Birch Dune Sorrel Quartz Velvet Delta Ridge Larch }
    }
    #[xsd::all(schema = "schemas/s008/main.xsd")]
    pub mod s008 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Dune Delta Velvet Cinder Orchid }
    }
    #[xsd::all(schema = "schemas/s011/main.xsd")]
    pub mod s011 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Iris Fjord }
    }
    #[xsd::all(schema = "schemas/s014/main.xsd")]
    pub mod s014 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Birch Cinder Cobalt Nimbus Zephyr Meadow Willow Fjord Grove Orchid Delta Xenon Quartz Larch Umber Ember Velvet Harbor Knoll }
    }
    #[xsd::all(schema = "schemas/s032/main.xsd")]
    pub mod s032 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Ember Ridge Delta Birch Umber Sorrel }
    }
    #[xsd::all(schema = "schemas/s039/main.xsd")]
    pub mod s039 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Nimbus Birch Umber Grove Basalt Velvet Delta Fjord Pebble Juniper Estuary Xenon Ridge Willow Dune Quartz }
    }
    #[xsd::all(schema = "schemas/s040/main.xsd")]
    pub mod s040 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Nimbus Yarrow Xenon Pebble Estuary Delta Larch Tundra Iris Orchid }
    }
    #[xsd::all(schema = "schemas/s046/main.xsd")]
    pub mod s046 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Harbor Pebble Meadow Cobalt }
    }
    #[xsd::all(schema = "schemas/s061/main.xsd")]
    pub mod s061 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Grove Willow Fjord Zephyr Sorrel Basalt }
    }
    #[xsd::all(schema = "schemas/s068/main.xsd")]
    pub mod s068 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Willow Basalt Ember Nimbus }
    }
    #[xsd::all(schema = "schemas/s069/main.xsd")]
    pub mod s069 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Amber Estuary Willow Basalt Cobalt Zephyr Meadow Umber }
    }
    #[xsd::all(schema = "schemas/s071/main.xsd")]
    pub mod s071 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Pebble Sorrel Willow Grove }
    }
    #[xsd::all(schema = "schemas/s072/main.xsd")]
    pub mod s072 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Meadow Cinder Knoll }
    }
    #[xsd::all(schema = "schemas/s076/main.xsd")]
    pub mod s076 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Amber Ridge Ember Zephyr }
    }
    #[xsd::all(schema = "schemas/s080/main.xsd")]
    pub mod s080 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Ridge Ember Nimbus Cinder Pebble Quartz Birch Delta Dune Grove Zephyr }
    }
    #[xsd::all(schema = "schemas/s083/main.xsd")]
    pub mod s083 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Quartz Fjord Yarrow Harbor Juniper }
    }
    #[xsd::all(schema = "schemas/s099/main.xsd")]
    pub mod s099 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Cinder Quartz Dune }
    }
    #[xsd::all(schema = "schemas/s100/main.xsd")]
    pub mod s100 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Orchid Ridge Fjord }
    }
    #[xsd::all(schema = "schemas/s111/main.xsd")]
    pub mod s111 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Amber Knoll Delta Tundra }
    }
    #[xsd::all(schema = "schemas/s113/main.xsd")]
    pub mod s113 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Zephyr Orchid Cobalt Ridge }
    }
}
glue::roots! { h010, "h010": Tree = "Tree" Forest = "Forest" Ping = "Ping" Pong = "Pong" Game = "Game" }
glue::roots! { s003, "s003": Tundra = "Tundra" Ember = "Ember" Delta = "Delta" Umber = "Umber" Iris = "Iris" Cobalt = "Cobalt" }
glue::roots! { s007, "s007": Amber = "Amber" Yarrow = "Yarrow" Harbor = "Harbor" Meadow = "Meadow" Tundra = "Tundra" Ember = "Ember" Estuary = "Estuary" Iris = "Iris" Cinder = "Cinder" Birch = "Birch" Dune = "Dune" Sorrel = "Sorrel" Quartz = "Quartz" Velvet = "Velvet" Delta = "Delta" Ridge = "Ridge" Larch = "Larch" }
glue::roots! { s008, "s008": Dune = "Dune" Delta = "Delta" Velvet = "Velvet" Cinder = "Cinder" Orchid = "Orchid" }
glue::roots! { s011, "s011": Iris = "Iris" Fjord = "Fjord" }
glue::roots! { s014, "s014": Birch = "Birch" Cinder = "Cinder" Cobalt = "Cobalt" Nimbus = "Nimbus" Zephyr = "Zephyr" Meadow = "Meadow" Willow = "Willow" Fjord = "Fjord" Grove = "Grove" Orchid = "Orchid" Delta = "Delta" Xenon = "Xenon" Quartz = "Quartz" Larch = "Larch" Umber = "Umber" Ember = "Ember" Velvet = "Velvet" Harbor = "Harbor" Knoll = "Knoll" }
glue::roots! { s032, "s032": Ember = "Ember" Ridge = "Ridge" Delta = "Delta" Birch = "Birch" Umber = "Umber" Sorrel = "Sorrel" }
glue::roots! { s039, "s039": Nimbus = "Nimbus" Birch = "Birch" Umber = "Umber" Grove = "Grove" Basalt = "Basalt" Velvet = "Velvet" Delta = "Delta" Fjord = "Fjord" Pebble = "Pebble" Juniper = "Juniper" Estuary = "Estuary" Xenon = "Xenon" Ridge = "Ridge" Willow = "Willow" Dune = "Dune" Quartz = "Quartz" }
glue::roots! { s040, "s040": Nimbus = "Nimbus" Yarrow = "Yarrow" Xenon = "Xenon" Pebble = "Pebble" Estuary = "Estuary" Delta = "Delta" Larch = "Larch" Tundra = "Tundra" Iris = "Iris" Orchid = "Orchid" }
glue::roots! { s046, "s046": Harbor = "Harbor" Pebble = "Pebble" Meadow = "Meadow" Cobalt = "Cobalt" }
glue::roots! { s061, "s061": Grove = "Grove" Willow = "Willow" Fjord = "Fjord" Zephyr = "Zephyr" Sorrel = "Sorrel" Basalt = "Basalt" }
glue::roots! { s068, "s068": Willow = "Willow" Basalt = "Basalt" Ember = "Ember" Nimbus = "Nimbus" }
glue::roots! { s069, "s069": Amber = "Amber" Estuary = "Estuary" Willow = "Willow" Basalt = "Basalt" Cobalt = "Cobalt" Zephyr = "Zephyr" Meadow = "Meadow" Umber = "Umber" }
glue::roots! { s071, "s071": Pebble = "Pebble" Sorrel = "Sorrel" Willow = "Willow" Grove = "Grove" }
glue::roots! { s072, "s072": Meadow = "Meadow" Cinder = "Cinder" Knoll = "Knoll" }
glue::roots! { s076, "s076": Amber = "Amber" Ridge = "Ridge" Ember = "Ember" Zephyr = "Zephyr" }
glue::roots! { s080, "s080": Ridge = "Ridge" Ember = "Ember" Nimbus = "Nimbus" Cinder = "Cinder" Pebble = "Pebble" Quartz = "Quartz" Birch = "Birch" Delta = "Delta" Dune = "Dune" Grove = "Grove" Zephyr = "Zephyr" }
glue::roots! { s083, "s083": Quartz = "Quartz" Fjord = "Fjord" Yarrow = "Yarrow" Harbor = "Harbor" Juniper = "Juniper" }
glue::roots! { s099, "s099": Cinder = "Cinder" Quartz = "Quartz" Dune = "Dune" }
glue::roots! { s100, "s100": Orchid = "Orchid" Ridge = "Ridge" Fjord = "Fjord" }
glue::roots! { s111, "s111": Amber = "Amber" Knoll = "Knoll" Delta = "Delta" Tundra = "Tundra" }
glue::roots! { s113, "s113": Zephyr = "Zephyr" Orchid = "Orchid" Cobalt = "Cobalt" Ridge = "Ridge" }
pub static SCHEMAS: &[(&str, &str, &[glue::Root])] = &[
    ("h010", include_str!("../models/h010.json"), h010::ROOTS),
    ("s003", include_str!("../models/s003.json"), s003::ROOTS),
    ("s007", include_str!("../models/s007.json"), s007::ROOTS),
    ("s008", include_str!("../models/s008.json"), s008::ROOTS),
    ("s011", include_str!("../models/s011.json"), s011::ROOTS),
    ("s014", include_str!("../models/s014.json"), s014::ROOTS),
    ("s032", include_str!("../models/s032.json"), s032::ROOTS),
    ("s039", include_str!("../models/s039.json"), s039::ROOTS),
    ("s040", include_str!("../models/s040.json"), s040::ROOTS),
    ("s046", include_str!("../models/s046.json"), s046::ROOTS),
    ("s061", include_str!("../models/s061.json"), s061::ROOTS),
    ("s068", include_str!("../models/s068.json"), s068::ROOTS),
    ("s069", include_str!("../models/s069.json"), s069::ROOTS),
    ("s071", include_str!("../models/s071.json"), s071::ROOTS),
    ("s072", include_str!("../models/s072.json"), s072::ROOTS),
    ("s076", include_str!("../models/s076.json"), s076::ROOTS),
    ("s080", include_str!("../models/s080.json"), s080::ROOTS),
    ("s083", include_str!("../models/s083.json"), s083::ROOTS),
    ("s099", include_str!("../models/s099.json"), s099::ROOTS),
    ("s100", include_str!("../models/s100.json"), s100::ROOTS),
    ("s111", include_str!("../models/s111.json"), s111::ROOTS),
    ("s113", include_str!("../models/s113.json"), s113::ROOTS),
];
