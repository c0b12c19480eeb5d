//! Written by make.py.
#![allow(warnings)]
mod schema {
    #[xsd::all(schema = "schemas/h005/main.xsd")]
    pub mod h005 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Deep Groups Tree Forest }
    }
    #[xsd::all(schema = "schemas/s000/main.xsd")]
    pub mod s000 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Nimbus Knoll Ember Sorrel Ridge Estuary Orchid Juniper Yarrow Grove Amber Delta Pebble Cobalt Tundra }
    }
    #[xsd::all(schema = "schemas/s005/main.xsd")]
    pub mod s005 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Meadow Harbor Zephyr Ember }
    }
    #[xsd::all(schema = "schemas/s009/main.xsd")]
    pub mod s009 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Delta Harbor Fjord Birch Basalt Willow }
    }
    #[xsd::all(schema = "schemas/s010/main.xsd")]
    pub mod s010 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Fjord Harbor Iris Larch Cobalt Birch Dune Pebble Velvet Cinder Umber Ridge Quartz Juniper }
    }
    #[xsd::all(schema = "schemas/s022/main.xsd")]
    pub mod s022 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Knoll Velvet Fjord Nimbus }
    }
    #[xsd::all(schema = "schemas/s024/main.xsd")]
    pub mod s024 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Xenon Ember Yarrow Nimbus }
    }
    #[xsd::all(schema = "schemas/s025/main.xsd")]
    pub mod s025 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Zephyr Harbor Knoll Tundra Iris Sorrel Xenon Delta Ember }
    }
    #[xsd::all(schema = "schemas/s026/main.xsd")]
    pub mod s026 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Basalt Cobalt Estuary Nimbus Tundra Cinder Larch }
    }
    #[xsd::all(schema = "schemas/s034/main.xsd")]
    pub mod s034 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Knoll Orchid Meadow Juniper Velvet Nimbus Iris Cobalt }
    }
    #[xsd::all(schema = "schemas/s037/main.xsd")]
    pub mod s037 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Basalt Cobalt Yarrow }
    }
    #[xsd::all(schema = "schemas/s050/main.xsd")]
    pub mod s050 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Zephyr Cinder Orchid Basalt Harbor Yarrow Umber Cobalt Pebble Fjord }
    }
    #[xsd::all(schema = "schemas/s052/main.xsd")]
    pub mod s052 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Tundra Knoll Nimbus Grove }
    }
    #[xsd::all(schema = "schemas/s059/main.xsd")]
    pub mod s059 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Estuary Cinder }
    }
    #[xsd::all(schema = "schemas/s070/main.xsd")]
    pub mod s070 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Orchid Quartz Umber }
    }
    #[xsd::all(schema = "schemas/s073/main.xsd")]
    pub mod s073 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Orchid Fjord Basalt }
    }
    #[xsd::all(schema = "schemas/s077/main.xsd")]
    pub mod s077 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Xenon Iris Juniper Knoll Cobalt Larch Delta Velvet Orchid Nimbus Ridge Meadow Estuary Yarrow Birch Pebble Tundra Willow Amber Dune Basalt Ember Harbor Fjord Quartz }
    }
    #[xsd::all(schema = "schemas/s082/main.xsd")]
    pub mod s082 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Yarrow Fjord Larch Umber Dune Pebble Tundra Willow Velvet Cinder Harbor Nimbus Knoll }
    }
    #[xsd::all(schema = "schemas/s096/main.xsd")]
    pub mod s096 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Grove Yarrow Larch }
    }
    #[xsd::all(schema = "schemas/s102/main.xsd")]
    pub mod s102 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Orchid Meadow Dune Pebble Zephyr Tundra }
    }
    #[xsd::all(schema = "schemas/s106/main.xsd")]
    pub mod s106 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Amber Knoll }
    }
    #[xsd::all(schema = "schemas/s112/main.xsd")]
    pub mod s112 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Pebble Dune }
    }
}
glue::roots! { h005, "h005": Deep = "Deep" Groups = "Groups" Tree = "Tree" Forest = "Forest" }
glue::roots! { s000, "s000": Nimbus = "Nimbus" Knoll = "Knoll" Ember = "Ember" Sorrel = "Sorrel" Ridge = "Ridge" Estuary = "Estuary" Orchid = "Orchid" Juniper = "Juniper" Yarrow = "Yarrow" Grove = "Grove" Amber = "Amber" Delta = "Delta" Pebble = "Pebble" Cobalt = "Cobalt" Tundra = "Tundra" }
glue::roots! { s005, "s005": Meadow = "Meadow" Harbor = "Harbor" Zephyr = "Zephyr" Ember = "Ember" }
glue::roots! { s009, "s009": Delta = "Delta" Harbor = "Harbor" Fjord = "Fjord" Birch = "Birch" Basalt = "Basalt" Willow = "Willow" }
glue::roots! { s010, "s010": Fjord = "Fjord" Harbor = "Harbor" Iris = "Iris" Larch = "Larch" Cobalt = "Cobalt" Birch = "Birch" Dune = "Dune" Pebble = "Pebble" Velvet = "Velvet" Cinder = "Cinder" Umber = "Umber" Ridge = "Ridge" Quartz = "Quartz" Juniper = "Juniper" }
glue::roots! { s022, "s022": Knoll = "Knoll" Velvet = "Velvet" Fjord = "Fjord" Nimbus = "Nimbus" }
glue::roots! { s024, "s024": Xenon = "Xenon" Ember = "Ember" Yarrow = "Yarrow" Nimbus = "Nimbus" }
glue::roots! { s025, "s025": Zephyr = "Zephyr" Harbor = "Harbor" Knoll = "Knoll" Tundra = "Tundra" Iris = "Iris" Sorrel = "Sorrel" Xenon = "Xenon" Delta = "Delta" Ember = "Ember" }
glue::roots! { s026, "s026": Basalt = "Basalt" Cobalt = "Cobalt" Estuary = "Estuary" Nimbus = "Nimbus" Tundra = "Tundra" Cinder = "Cinder" Larch = "Larch" }
glue::roots! { s034, "s034": Knoll = "Knoll" Orchid = "Orchid" Meadow = "Meadow" Juniper = "Juniper" Velvet = "Velvet" Nimbus = "Nimbus" Iris = "Iris" Cobalt = "Cobalt" }
glue::roots! { s037, "s037": Basalt = "Basalt" Cobalt = "Cobalt" Yarrow = "Yarrow" }
glue::roots! { s050, "s050": Zephyr = "Zephyr" Cinder = "Cinder" Orchid = "Orchid" Basalt = "Basalt" Harbor = "Harbor" Yarrow = "Yarrow" Umber = "Umber" Cobalt = "Cobalt" Pebble = "Pebble" Fjord = "Fjord" }
glue::roots! { s052, "s052": Tundra = "Tundra" Knoll = "Knoll" Nimbus = "Nimbus" Grove = "Grove" }
glue::roots! { s059, "s059": Estuary = "Estuary" Cinder = "Cinder" }
glue::roots! { s070, "s070": Orchid = "Orchid" Quartz = "Quartz" Umber = "Umber" }
glue::roots! { s073, "s073": Orchid = "Orchid" Fjord = "Fjord" Basalt = "Basalt" }
glue::roots! { s077, "s077": Xenon = "Xenon" Iris = "Iris" Juniper = "Juniper" Knoll = "Knoll" Cobalt = "Cobalt" Larch = "Larch" Delta = "Delta" Velvet = "Velvet" Orchid = "Orchid" Nimbus = "Nimbus" Ridge = "Ridge" Meadow = "Meadow" Estuary = "Estuary" Yarrow = "Yarrow" Birch = "Birch" Pebble = "Pebble" Tundra = "Tundra" Willow = "Willow" Amber = "Amber" Dune = "Dune" Basalt = "Basalt" Ember = "Ember" Harbor = "Harbor" Fjord = "Fjord" Quartz = "Quartz" }
glue::roots! { s082, "s082": Yarrow = "Yarrow" Fjord = "Fjord" Larch = "Larch" Umber = "Umber" Dune = "Dune" Pebble = "Pebble" Tundra = "Tundra" Willow = "Willow" Velvet = "Velvet" Cinder = "Cinder" Harbor = "Harbor" Nimbus = "Nimbus" Knoll = "Knoll" }
glue::roots! { s096, "s096": Grove = "Grove" Yarrow = "Yarrow" Larch = "Larch" }
glue::roots! { s102, "s102": Orchid = "Orchid" Meadow = "Meadow" Dune = "Dune" Pebble = "Pebble" Zephyr = "Zephyr" Tundra = "Tundra" }
glue::roots! { s106, "s106": Amber = "Amber" Knoll = "Knoll" }
glue::roots! { s112, "s112": Pebble = "Pebble" Dune = "Dune" }
pub static SCHEMAS: &[(&str, &str, &[glue::Root])] = &[
    ("h005", include_str!("../models/h005.json"), h005::ROOTS),
    ("s000", include_str!("../models/s000.json"), s000::ROOTS),
    ("s005", include_str!("../models/s005.json"), s005::ROOTS),
    ("s009", include_str!("../models/s009.json"), s009::ROOTS),
    ("s010", include_str!("../models/s010.json"), s010::ROOTS),
    ("s022", include_str!("../models/s022.json"), s022::ROOTS),
    ("s024", include_str!("../models/s024.json"), s024::ROOTS),
    ("s025", include_str!("../models/s025.json"), s025::ROOTS),
    ("s026", include_str!("../models/s026.json"), s026::ROOTS),
    ("s034", include_str!("../models/s034.json"), s034::ROOTS),
    ("s037", include_str!("../models/s037.json"), s037::ROOTS),
    ("s050", include_str!("../models/s050.json"), s050::ROOTS),
    ("s052", include_str!("../models/s052.json"), s052::ROOTS),
    ("s059", include_str!("../models/s059.json"), s059::ROOTS),
    ("s070", include_str!("../models/s070.json"), s070::ROOTS),
    ("s073", include_str!("../models/s073.json"), s073::ROOTS),
    ("s077", include_str!("../models/s077.json"), s077::ROOTS),
    ("s082", include_str!("../models/s082.json"), s082::ROOTS),
    ("s096", include_str!("../models/s096.json"), s096::ROOTS),
    ("s102", include_str!("../models/s102.json"), s102::ROOTS),
    ("s106", include_str!("../models/s106.json"), s106::ROOTS),
    ("s112", include_str!("../models/s112.json"), s112::ROOTS),
];
