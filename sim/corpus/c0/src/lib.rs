//! Written by make.py.
#![allow(warnings)]
mod schema {
    #[xsd::all(schema = "schemas/s002/main.xsd")]
    pub mod s002 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Fjord Pebble Yarrow Grove Delta Cinder Basalt Sorrel Nimbus Iris Zephyr Meadow Xenon Cobalt Birch Harbor Quartz Juniper Ember Umber Orchid Dune Willow Ridge Tundra Knoll Larch Estuary }
    }
    #[xsd::all(schema = "schemas/s004/main.xsd")]
    pub mod s004 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Delta Harbor Quartz Ember Fjord Zephyr Iris Velvet Yarrow Grove Xenon }
    }
    #[xsd::all(schema = "schemas/s015/main.xsd")]
    pub mod s015 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Estuary Nimbus Cobalt Dune Delta Larch Umber Iris Tundra Quartz Knoll Grove }
    }
    #[xsd::all(schema = "schemas/s017/main.xsd")]
    pub mod s017 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Yarrow Delta Amber Harbor Umber Grove Knoll Meadow Nimbus Birch }
    }
    #[xsd::all(schema = "schemas/s023/main.xsd")]
    pub mod s023 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Grove Cobalt Xenon Pebble Juniper Willow Yarrow Iris Umber Fjord Nimbus Ridge Ember }
    }
    #[xsd::all(schema = "schemas/s035/main.xsd")]
    pub mod s035 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Zephyr Juniper Orchid Delta }
    }
    #[xsd::all(schema = "schemas/s045/main.xsd")]
    pub mod s045 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Basalt Dune Yarrow Quartz Willow Meadow }
    }
    #[xsd::all(schema = "schemas/s049/main.xsd")]
    pub mod s049 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Grove Dune }
    }
    #[xsd::all(schema = "schemas/s053/main.xsd")]
    pub mod s053 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Quartz Pebble Iris Umber }
    }
    #[xsd::all(schema = "schemas/s057/main.xsd")]
    pub mod s057 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Harbor Nimbus Estuary }
    }
    #[xsd::all(schema = "schemas/s063/main.xsd")]
    pub mod s063 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Basalt Larch Sorrel Meadow }
    }
    #[xsd::all(schema = "schemas/s065/main.xsd")]
    pub mod s065 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Ridge Tundra Cobalt Umber }
    }
    #[xsd::all(schema = "schemas/s075/main.xsd")]
    pub mod s075 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Grove Juniper Velvet Harbor Meadow }
    }
    #[xsd::all(schema = "schemas/s079/main.xsd")]
    pub mod s079 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Nimbus Harbor }
    }
    #[xsd::all(schema = "schemas/s084/main.xsd")]
    pub mod s084 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Umber Grove Velvet Basalt Ember Iris Orchid Fjord Sorrel Delta Zephyr Yarrow Estuary Cinder Juniper }
    }
    #[xsd::all(schema = "schemas/s091/main.xsd")]
    pub mod s091 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Cinder Meadow Dune Sorrel Zephyr Ridge }
    }
    #[xsd::all(schema = "schemas/s101/main.xsd")]
    pub mod s101 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Basalt Sorrel Orchid Zephyr Nimbus Velvet Ridge Grove Amber }
    }
    #[xsd::all(schema = "schemas/s105/main.xsd")]
    pub mod s105 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Dune Delta Velvet }
    }
    #[xsd::all(schema = "schemas/s109/main.xsd")]
    pub mod s109 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Zephyr Quartz Tundra Fjord }
    }
    #[xsd::all(schema = "schemas/s114/main.xsd")]
    pub mod s114 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Quartz Yarrow }
    }
    #[xsd::all(schema = "schemas/s116/main.xsd")]
    pub mod s116 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Larch Sorrel }
    }
    #[xsd::all(schema = "schemas/s117/main.xsd")]
    pub mod s117 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Knoll Quartz }
    }
}
glue::roots! { s002, "s002": Fjord = "Fjord" Pebble = "Pebble" Yarrow = "Yarrow" Grove = "Grove" Delta = "Delta" Cinder = "Cinder" Basalt = "Basalt" Sorrel = "Sorrel" Nimbus = "Nimbus" Iris = "Iris" Zephyr = "Zephyr" Meadow = "Meadow" Xenon = "Xenon" Cobalt = "Cobalt" Birch = "Birch" Harbor = "Harbor" Quartz = "Quartz" Juniper = "Juniper" Ember = "Ember" Umber = "Umber" Orchid = "Orchid" Dune = "Dune" Willow = "Willow" Ridge = "Ridge" Tundra = "Tundra" Knoll = "Knoll" Larch = "Larch" Estuary = "Estuary" }
glue::roots! { s004, "s004": Delta = "Delta" Harbor = "Harbor" Quartz = "Quartz" Ember = "Ember" Fjord = "Fjord" Zephyr = "Zephyr" Iris = "Iris" Velvet = "Velvet" Yarrow = "Yarrow" Grove = "Grove" Xenon = "Xenon" }
glue::roots! { s015, "s015": Estuary = "Estuary" Nimbus = "Nimbus" Cobalt = "Cobalt" Dune = "Dune" Delta = "Delta" Larch = "Larch" Umber = "Umber" Iris = "Iris" Tundra = "Tundra" Quartz = "Quartz" Knoll = "Knoll" Grove = "Grove" }
glue::roots! { s017, "s017": Yarrow = "Yarrow" Delta = "Delta" Amber = "Amber" Harbor = "Harbor" Umber = "Umber" Grove = "Grove" Knoll = "Knoll" Meadow = "Meadow" Nimbus = "Nimbus" Birch = "Birch" }
glue::roots! { s023, "s023": Grove = "Grove" Cobalt = "Cobalt" Xenon = "Xenon" Pebble = "Pebble" Juniper = "Juniper" Willow = "Willow" Yarrow = "Yarrow" Iris = "Iris" Umber = "Umber" Fjord = "Fjord" Nimbus = "Nimbus" Ridge = "Ridge" Ember = "Ember" }
glue::roots! { s035, "s035": Zephyr = "Zephyr" Juniper = "Juniper" Orchid = "Orchid" Delta = "Delta" }
glue::roots! { s045, "s045": Basalt = "Basalt" Dune = "Dune" Yarrow = "Yarrow" Quartz = "Quartz" Willow = "Willow" Meadow = "Meadow" }
glue::roots! { s049, "s049": Grove = "Grove" Dune = "Dune" }
glue::roots! { s053, "s053": Quartz = "Quartz" Pebble = "Pebble" Iris = "Iris" Umber = "Umber" }
glue::roots! { s057, "s057": Harbor = "Harbor" Nimbus = "Nimbus" Estuary = "Estuary" }
glue::roots! { s063, "s063": Basalt = "Basalt" Larch = "Larch" Sorrel = "Sorrel" Meadow = "Meadow" }
glue::roots! { s065, "s065": Ridge = "Ridge" Tundra = "Tundra" Cobalt = "Cobalt" Umber = "Umber" }
glue::roots! { s075, "s075": Grove = "Grove" Juniper = "Juniper" Velvet = "Velvet" Harbor = "Harbor" Meadow = "Meadow" }
glue::roots! { s079, "s079": Nimbus = "Nimbus" Harbor = "Harbor" }
glue::roots! { s084, "s084": Umber = "Umber" Grove = "Grove" Velvet = "Velvet" Basalt = "Basalt" Ember = "Ember" Iris = "Iris" Orchid = "Orchid" Fjord = "Fjord" Sorrel = "Sorrel" Delta = "Delta" Zephyr = "Zephyr" Yarrow = "Yarrow" Estuary = "Estuary" Cinder = "Cinder" Juniper = "Juniper" }
glue::roots! { s091, "s091": Cinder = "Cinder" Meadow = "Meadow" Dune = "Dune" Sorrel = "Sorrel" Zephyr = "Zephyr" Ridge = "Ridge" }
glue::roots! { s101, "s101": Basalt = "Basalt" Sorrel = "Sorrel" Orchid = "Orchid" Zephyr = "Zephyr" Nimbus = "Nimbus" Velvet = "Velvet" Ridge = "Ridge" Grove = "Grove" Amber = "Amber" }
glue::roots! { s105, "s105": Dune = "Dune" Delta = "Delta" Velvet = "Velvet" }
glue::roots! { s109, "s109": Zephyr = "Zephyr" Quartz = "Quartz" Tundra = "Tundra" Fjord = "Fjord" }
glue::roots! { s114, "s114": Quartz = "Quartz" Yarrow = "Yarrow" }
glue::roots! { s116, "s116": Larch = "Larch" Sorrel = "Sorrel" }
glue::roots! { s117, "s117": Knoll = "Knoll" Quartz = "Quartz" }
pub static SCHEMAS: &[(&str, &str, &[glue::Root])] = &[
    ("s002", include_str!("../models/s002.json"), s002::ROOTS),
    ("s004", include_str!("../models/s004.json"), s004::ROOTS),
    ("s015", include_str!("../models/s015.json"), s015::ROOTS),
    ("s017", include_str!("../models/s017.json"), s017::ROOTS),
    ("s023", include_str!("../models/s023.json"), s023::ROOTS),
    ("s035", include_str!("../models/s035.json"), s035::ROOTS),
    ("s045", include_str!("../models/s045.json"), s045::ROOTS),
    ("s049", include_str!("../models/s049.json"), s049::ROOTS),
    ("s053", include_str!("../models/s053.json"), s053::ROOTS),
    ("s057", include_str!("../models/s057.json"), s057::ROOTS),
    ("s063", include_str!("../models/s063.json"), s063::ROOTS),
    ("s065", include_str!("../models/s065.json"), s065::ROOTS),
    ("s075", include_str!("../models/s075.json"), s075::ROOTS),
    ("s079", include_str!("../models/s079.json"), s079::ROOTS),
    ("s084", include_str!("../models/s084.json"), s084::ROOTS),
    ("s091", include_str!("../models/s091.json"), s091::ROOTS),
    ("s101", include_str!("../models/s101.json"), s101::ROOTS),
    ("s105", include_str!("../models/s105.json"), s105::ROOTS),
    ("s109", include_str!("../models/s109.json"), s109::ROOTS),
    ("s114", include_str!("../models/s114.json"), s114::ROOTS),
    ("s116", include_str!("../models/s116.json"), s116::ROOTS),
    ("s117", include_str!("../models/s117.json"), s117::ROOTS),
];
