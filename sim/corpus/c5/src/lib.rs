//! Written by make.py.
#![allow(warnings)]
mod schema {
    #[xsd::all(schema = "schemas/h001/main.xsd")]
    pub mod h001 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Pick }
    }
    #[xsd::all(schema = "schemas/h006/main.xsd")]
    pub mod h006 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Order Way Turn Tag Note }
    }
    #[xsd::all(schema = "schemas/h009/main.xsd")]
    pub mod h009 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Parcel Crate Route Case Chest Label }
    }
    #[xsd::all(schema = "schemas/s016/main.xsd")]
    pub mod s016 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Quartz Grove Iris Tundra Basalt Meadow Knoll Fjord Delta Umber Orchid Nimbus Amber Harbor Birch Cobalt }
    }
    #[xsd::all(schema = "schemas/s018/main.xsd")]
    pub mod s018 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Ridge Orchid Sorrel Delta Tundra Birch Amber Willow Xenon Harbor Quartz Juniper }
    }
    #[xsd::all(schema = "schemas/s019/main.xsd")]
    pub mod s019 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Umber Estuary }
    }
    #[xsd::all(schema = "schemas/s027/main.xsd")]
    pub mod s027 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Estuary Zephyr Basalt Yarrow Amber Ember Cobalt Sorrel Juniper }
    }
    #[xsd::all(schema = "schemas/s036/main.xsd")]
    pub mod s036 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Yarrow Quartz Iris Delta Cinder Xenon Willow Larch Basalt Velvet Pebble Ridge Zephyr Meadow Amber Nimbus Grove Harbor }
    }
    #[xsd::all(schema = "schemas/s044/main.xsd")]
    pub mod s044 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Meadow Basalt Harbor Tundra Birch Larch Nimbus Xenon Sorrel Fjord Dune Juniper Knoll Quartz Cinder Zephyr Umber Cobalt }
    }
    #[xsd::all(schema = "schemas/s047/main.xsd")]
    pub mod s047 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Tundra Cinder Cobalt Fjord Amber Delta Pebble }
    }
    #[xsd::all(schema = "schemas/s051/main.xsd")]
    pub mod s051 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Knoll Harbor Nimbus Cinder Ridge Xenon }
    }
    #[xsd::all(schema = "schemas/s055/main.xsd")]
    pub mod s055 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Knoll Sorrel Tundra }
    }
    #[xsd::all(schema = "schemas/s058/main.xsd")]
    pub mod s058 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Birch Cobalt Fjord }
    }
    #[xsd::all(schema = "schemas/s074/main.xsd")]
    pub mod s074 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Nimbus Cinder Estuary Quartz Grove Fjord }
    }
    #[xsd::all(schema = "schemas/s081/main.xsd")]
    pub mod s081 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Willow Fjord Grove Iris Delta Harbor Sorrel }
    }
    #[xsd::all(schema = "schemas/s092/main.xsd")]
    pub mod s092 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Iris Ember Pebble Grove Juniper Meadow Birch Yarrow }
    }
    #[xsd::all(schema = "schemas/s093/main.xsd")]
    pub mod s093 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Estuary Cobalt Iris Ember Willow Knoll Fjord Pebble Cinder Velvet Ridge Orchid Meadow Nimbus Basalt Yarrow Sorrel Harbor Amber Larch Zephyr Umber Dune Xenon }
    }
    #[xsd::all(schema = "schemas/s097/main.xsd")]
    pub mod s097 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Meadow Willow Amber Cinder Sorrel Knoll Umber Juniper Iris Cobalt Delta Pebble Grove Tundra Basalt }
    }
    #[xsd::all(schema = "schemas/s107/main.xsd")]
    pub mod s107 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Basalt Meadow Ridge Umber Pebble Knoll Iris }
    }
    #[xsd::all(schema = "schemas/s108/main.xsd")]
    pub mod s108 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Orchid Tundra Larch Quartz }
    }
    #[xsd::all(schema = "schemas/s110/main.xsd")]
    pub mod s110 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Quartz Velvet Birch }
    }
    #[xsd::all(schema = "schemas/s115/main.xsd")]
    pub mod s115 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Estuary Cinder Delta }
    }
}
glue::roots! { h001, "h001": Pick = "Pick" }
glue::roots! { h006, "h006": Order = "Order" Way = "Way" Turn = "Turn" Tag = "Tag" Note = "Note" }
glue::roots! { h009, "h009": Parcel = "Parcel" Crate = "Crate" Route = "Route" Case = "Case" Chest = "Chest" Label = "Label" }
glue::roots! { s016, "s016": Quartz = "Quartz" Grove = "Grove" Iris = "Iris" Tundra = "Tundra" Basalt = "Basalt" Meadow = "Meadow" Knoll = "Knoll" Fjord = "Fjord" Delta = "Delta" Umber = "Umber" Orchid = "Orchid" Nimbus = "Nimbus" Amber = "Amber" Harbor = "Harbor" Birch = "Birch" Cobalt = "Cobalt" }
glue::roots! { s018, "s018": Ridge = "Ridge" Orchid = "Orchid" Sorrel = "Sorrel" Delta = "Delta" Tundra = "Tundra" Birch = "Birch" Amber = "Amber" Willow = "Willow" Xenon = "Xenon" Harbor = "Harbor" Quartz = "Quartz" Juniper = "Juniper" }
glue::roots! { s019, "s019": Umber = "Umber" Estuary = "Estuary" }
glue::roots! { s027, "s027": Estuary = "Estuary" Zephyr = "Zephyr" Basalt = "Basalt" Yarrow = "Yarrow" Amber = "Amber" Ember = "Ember" Cobalt = "Cobalt" Sorrel = "Sorrel" Juniper = "Juniper" }
glue::roots! { s036, "s036": Yarrow = "Yarrow" Quartz = "Quartz" Iris = "Iris" Delta = "Delta" Cinder = "Cinder" Xenon = "Xenon" Willow = "Willow" Larch = "Larch" Basalt = "Basalt" Velvet = "Velvet" Pebble = "Pebble" Ridge = "Ridge" Zephyr = "Zephyr" Meadow = "Meadow" Amber = "Amber" Nimbus = "Nimbus" Grove = "Grove" Harbor = "Harbor" }
glue::roots! { s044, "s044": Meadow = "Meadow" Basalt = "Basalt" Harbor = "Harbor" Tundra = "Tundra" Birch = "Birch" Larch = "Larch" Nimbus = "Nimbus" Xenon = "Xenon" Sorrel = "Sorrel" Fjord = "Fjord" Dune = "Dune" Juniper = "Juniper" Knoll = "Knoll" Quartz = "Quartz" Cinder = "Cinder" Zephyr = "Zephyr" Umber = "Umber" Cobalt = "Cobalt" }
glue::roots! { s047, "s047": Tundra = "Tundra" Cinder = "Cinder" Cobalt = "Cobalt" Fjord = "Fjord" Amber = "Amber" Delta = "Delta" Pebble = "Pebble" }
glue::roots! { s051, "s051": Knoll = "Knoll" Harbor = "Harbor" Nimbus = "Nimbus" Cinder = "Cinder" Ridge = "Ridge" Xenon = "Xenon" }
glue::roots! { s055, "s055": Knoll = "Knoll" Sorrel = "Sorrel" Tundra = "Tundra" }
glue::roots! { s058, "s058": Birch = "Birch" Cobalt = "Cobalt" Fjord = "Fjord" }
glue::roots! { s074, "s074": Nimbus = "Nimbus" Cinder = "Cinder" Estuary = "Estuary" Quartz = "Quartz" Grove = "Grove" Fjord = "Fjord" }
glue::roots! { s081, "s081": Willow = "Willow" Fjord = "Fjord" Grove = "Grove" Iris = "Iris" Delta = "Delta" Harbor = "Harbor" Sorrel = "Sorrel" }
glue::roots! { s092, "s092": Iris = "Iris" Ember = "Ember" Pebble = "Pebble" Grove = "Grove" Juniper = "Juniper" Meadow = "Meadow" Birch = "Birch" Yarrow = "Yarrow" }
glue::roots! { s093, "s093": Estuary = "Estuary" Cobalt = "Cobalt" Iris = "Iris" Ember = "Ember" Willow = "Willow" Knoll = "Knoll" Fjord = "Fjord" Pebble = "Pebble" Cinder = "Cinder" Velvet = "Velvet" Ridge = "Ridge" Orchid = "Orchid" Meadow = "Meadow" Nimbus = "Nimbus" Basalt = "Basalt" Yarrow = "Yarrow" Sorrel = "Sorrel" Harbor = "Harbor" Amber = "Amber" Larch = "Larch" Zephyr = "Zephyr" Umber = "Umber" Dune = "Dune" Xenon = "Xenon" }
glue::roots! { s097, "s097": Meadow = "Meadow" Willow = "Willow" Amber = "Amber" Cinder = "Cinder" Sorrel = "Sorrel" Knoll = "Knoll" Umber = "Umber" Juniper = "Juniper" Iris = "Iris" Cobalt = "Cobalt" Delta = "Delta" Pebble = "Pebble" Grove = "Grove" Tundra = "Tundra" Basalt = "Basalt" }
glue::roots! { s107, "s107": Basalt = "Basalt" Meadow = "Meadow" Ridge = "Ridge" Umber = "Umber" Pebble = "Pebble" Knoll = "Knoll" Iris = "Iris" }
glue::roots! { s108, "s108": Orchid = "Orchid" Tundra = "Tundra" Larch = "Larch" Quartz = "Quartz" }
glue::roots! { s110, "s110": Quartz = "Quartz" Velvet = "Velvet" Birch = "Birch" }
glue::roots! { s115, "s115": Estuary = "Estuary" Cinder = "Cinder" Delta = "Delta" }
pub static SCHEMAS: &[(&str, &str, &[glue::Root])] = &[
    ("h001", include_str!("../models/h001.json"), h001::ROOTS),
    ("h006", include_str!("../models/h006.json"), h006::ROOTS),
    ("h009", include_str!("../models/h009.json"), h009::ROOTS),
    ("s016", include_str!("../models/s016.json"), s016::ROOTS),
    ("s018", include_str!("../models/s018.json"), s018::ROOTS),
    ("s019", include_str!("../models/s019.json"), s019::ROOTS),
    ("s027", include_str!("../models/s027.json"), s027::ROOTS),
    ("s036", include_str!("../models/s036.json"), s036::ROOTS),
    ("s044", include_str!("../models/s044.json"), s044::ROOTS),
    ("s047", include_str!("../models/s047.json"), s047::ROOTS),
    ("s051", include_str!("../models/s051.json"), s051::ROOTS),
    ("s055", include_str!("../models/s055.json"), s055::ROOTS),
    ("s058", include_str!("../models/s058.json"), s058::ROOTS),
    ("s074", include_str!("../models/s074.json"), s074::ROOTS),
    ("s081", include_str!("../models/s081.json"), s081::ROOTS),
    ("s092", include_str!("../models/s092.json"), s092::ROOTS),
    ("s093", include_str!("../models/s093.json"), s093::ROOTS),
    ("s097", include_str!("../models/s097.json"), s097::ROOTS),
    ("s107", include_str!("../models/s107.json"), s107::ROOTS),
    ("s108", include_str!("../models/s108.json"), s108::ROOTS),
    ("s110", include_str!("../models/s110.json"), s110::ROOTS),
    ("s115", include_str!("../models/s115.json"), s115::ROOTS),
];
