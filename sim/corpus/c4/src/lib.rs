//! Written by make.py.
#![allow(warnings)]
mod schema {
    #[xsd::all(schema = "schemas/h002/main.xsd")]
    pub mod h002 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Root Alpha Bravo Charlie Delta Echo Foxtrot Golf Hotel India Juliett Kilo Lima }
    }
    #[xsd::all(schema = "schemas/h003/main.xsd")]
    pub mod h003 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Wide Pick Every Mode Modes Loose }
    }
    #[xsd::all(schema = "schemas/h004/main.xsd")]
    pub mod h004 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Level0 Level1 Level2 Level3 Level4 Level5 Level6 Text0 Text1 Text2 Text3 Text4 Top Deepest Worded }
    }
    #[xsd::all(schema = "schemas/h007/main.xsd")]
    pub mod h007 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Order Way Turn Tag Note }
    }
    #[xsd::all(schema = "schemas/h008/main.xsd")]
    pub mod h008 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Parcel Crate Route Case Chest Label }
    }
    #[xsd::all(schema = "schemas/s001/main.xsd")]
    pub mod s001 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Basalt Zephyr Estuary Dune Knoll Iris Cinder Larch Ember Delta Fjord }
    }
    #[xsd::all(schema = "schemas/s013/main.xsd")]
    pub mod s013 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Cobalt Ember Sorrel }
    }
    #[xsd::all(schema = "schemas/s020/main.xsd")]
    pub mod s020 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Pebble Orchid Yarrow Delta Estuary Harbor }
    }
    #[xsd::all(schema = "schemas/s021/main.xsd")]
    pub mod s021 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Yarrow Willow Knoll Iris Umber Grove Harbor Basalt Cinder Meadow Quartz Pebble }
    }
    #[xsd::all(schema = "schemas/s029/main.xsd")]
    pub mod s029 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Basalt Orchid Grove Zephyr Meadow Velvet Yarrow Xenon Ember Nimbus Tundra }
    }
    #[xsd::all(schema = "schemas/s030/main.xsd")]
    pub mod s030 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Tundra Birch Iris Meadow }
    }
    #[xsd::all(schema = "schemas/s042/main.xsd")]
    pub mod s042 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Orchid Cinder Amber Juniper Delta Estuary }
    }
    #[xsd::all(schema = "schemas/s048/main.xsd")]
    pub mod s048 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Zephyr Estuary Umber Cobalt Quartz Willow Grove Birch Juniper Amber Knoll Ridge Velvet Orchid Tundra Meadow Nimbus Basalt Larch Fjord Harbor Iris }
    }
    #[xsd::all(schema = "schemas/s054/main.xsd")]
    pub mod s054 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Meadow Umber Amber }
    }
    #[xsd::all(schema = "schemas/s064/main.xsd")]
    pub mod s064 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Quartz Ember Juniper Ridge Xenon }
    }
    #[xsd::all(schema = "schemas/s087/main.xsd")]
    pub mod s087 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Basalt Dune Umber }
    }
    #[xsd::all(schema = "schemas/s088/main.xsd")]
    pub mod s088 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Larch Ridge Ember Xenon Birch Fjord Zephyr Yarrow }
    }
    #[xsd::all(schema = "schemas/s089/main.xsd")]
    pub mod s089 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Willow Cinder Basalt Yarrow }
    }
    #[xsd::all(schema = "schemas/s090/main.xsd")]
    pub mod s090 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Xenon Nimbus Amber Harbor Birch Juniper Umber Delta Sorrel Quartz Cobalt Velvet Grove Willow }
    }
    #[xsd::all(schema = "schemas/s095/main.xsd")]
    pub mod s095 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Larch Yarrow Zephyr Tundra }
    }
    #[xsd::all(schema = "schemas/s119/main.xsd")]
    pub mod s119 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Cobalt Iris Meadow Cinder Sorrel }
    }
}
glue::roots! { h002, "h002": Root = "Root" Alpha = "Alpha" Bravo = "Bravo" Charlie = "Charlie" Delta = "Delta" Echo = "Echo" Foxtrot = "Foxtrot" Golf = "Golf" Hotel = "Hotel" India = "India" Juliett = "Juliett" Kilo = "Kilo" Lima = "Lima" }
glue::roots! { h003, "h003": Wide = "Wide" Pick = "Pick" Every = "Every" Mode = "Mode" Modes = "Modes" Loose = "Loose" }
glue::roots! { h004, "h004": Level0 = "Level0" Level1 = "Level1" Level2 = "Level2" Level3 = "Level3" Level4 = "Level4" Level5 = "Level5" Level6 = "Level6" Text0 = "Text0" Text1 = "Text1" Text2 = "Text2" Text3 = "Text3" Text4 = "Text4" Top = "Top" Deepest = "Deepest" Worded = "Worded" }
glue::roots! { h007, "h007": Order = "Order" Way = "Way" Turn = "Turn" Tag = "Tag" Note = "Note" }
glue::roots! { h008, "h008": Parcel = "Parcel" Crate = "Crate" Route = "Route" Case = "Case" Chest = "Chest" Label = "Label" }
glue::roots! { s001, "s001": Basalt = "Basalt" Zephyr = "Zephyr" Estuary = "Estuary" Dune = "Dune" Knoll = "Knoll" Iris = "Iris" Cinder = "Cinder" Larch = "Larch" Ember = "Ember" Delta = "Delta" Fjord = "Fjord" }
glue::roots! { s013, "s013": Cobalt = "Cobalt" Ember = "Ember" Sorrel = "Sorrel" }
glue::roots! { s020, "s020": Pebble = "Pebble" Orchid = "Orchid" Yarrow = "Yarrow" Delta = "Delta" Estuary = "Estuary" Harbor = "Harbor" }
glue::roots! { s021, "s021": Yarrow = "Yarrow" Willow = "Willow" Knoll = "Knoll" Iris = "Iris" Umber = "Umber" Grove = "Grove" Harbor = "Harbor" Basalt = "Basalt" Cinder = "Cinder" Meadow = "Meadow" Quartz = "Quartz" Pebble = "Pebble" }
glue::roots! { s029, "s029": Basalt = "Basalt" Orchid = "Orchid" Grove = "Grove" Zephyr = "Zephyr" Meadow = "Meadow" Velvet = "Velvet" Yarrow = "Yarrow" Xenon = "Xenon" Ember = "Ember" Nimbus = "Nimbus" Tundra = "Tundra" }
glue::roots! { s030, "s030": Tundra = "Tundra" Birch = "Birch" Iris = "Iris" Meadow = "Meadow" }
glue::roots! { s042, "s042": Orchid = "Orchid" Cinder = "Cinder" Amber = "Amber" Juniper = "Juniper" Delta = "Delta" Estuary = "Estuary" }
glue::roots! { s048, "s048": Zephyr = "Zephyr" Estuary = "Estuary" Umber = "Umber" Cobalt = "Cobalt" Quartz = "Quartz" Willow = "Willow" Grove = "Grove" Birch = "Birch" Juniper = "Juniper" Amber = "Amber" Knoll = "Knoll" Ridge = "Ridge" Velvet = "Velvet" Orchid = "Orchid" Tundra = "Tundra" Meadow = "Meadow" Nimbus = "Nimbus" Basalt = "Basalt" Larch = "Larch" Fjord = "Fjord" Harbor = "Harbor" Iris = "Iris" }
glue::roots! { s054, "s054": Meadow = "Meadow" Umber = "Umber" Amber = "Amber" }
glue::roots! { s064, "s064": Quartz = "Quartz" Ember = "Ember" Juniper = "Juniper" Ridge = "Ridge" Xenon = "Xenon" }
glue::roots! { s087, "s087": Basalt = "Basalt" Dune = "Dune" Umber = "Umber" }
glue::roots! { s088, "s088": Larch = "Larch" Ridge = "Ridge" Ember = "Ember" Xenon = "Xenon" Birch = "Birch" Fjord = "Fjord" Zephyr = "Zephyr" Yarrow = "Yarrow" }
glue::roots! { s089, "s089": Willow = "Willow" Cinder = "Cinder" Basalt = "Basalt" Yarrow = "Yarrow" }
glue::roots! { s090, "s090": Xenon = "Xenon" Nimbus = "Nimbus" Amber = "Amber" Harbor = "Harbor" Birch = "Birch" Juniper = "Juniper" Umber = "Umber" Delta = "Delta" Sorrel = "Sorrel" Quartz = "Quartz" Cobalt = "Cobalt" Velvet = "Velvet" Grove = "Grove" Willow = "Willow" }
glue::roots! { s095, "s095": Larch = "Larch" Yarrow = "Yarrow" Zephyr = "Zephyr" Tundra = "Tundra" }
glue::roots! { s119, "s119": Cobalt = "Cobalt" Iris = "Iris" Meadow = "Meadow" Cinder = "Cinder" Sorrel = "Sorrel" }
pub static SCHEMAS: &[(&str, &str, &[glue::Root])] = &[
    ("h002", include_str!("../models/h002.json"), h002::ROOTS),
    ("h003", include_str!("../models/h003.json"), h003::ROOTS),
    ("h004", include_str!("../models/h004.json"), h004::ROOTS),
    ("h007", include_str!("../models/h007.json"), h007::ROOTS),
    ("h008", include_str!("../models/h008.json"), h008::ROOTS),
    ("s001", include_str!("../models/s001.json"), s001::ROOTS),
    ("s013", include_str!("../models/s013.json"), s013::ROOTS),
    ("s020", include_str!("../models/s020.json"), s020::ROOTS),
    ("s021", include_str!("../models/s021.json"), s021::ROOTS),
    ("s029", include_str!("../models/s029.json"), s029::ROOTS),
    ("s030", include_str!("../models/s030.json"), s030::ROOTS),
    ("s042", include_str!("../models/s042.json"), s042::ROOTS),
    ("s048", include_str!("../models/s048.json"), s048::ROOTS),
    ("s054", include_str!("../models/s054.json"), s054::ROOTS),
    ("s064", include_str!("../models/s064.json"), s064::ROOTS),
    ("s087", include_str!("../models/s087.json"), s087::ROOTS),
    ("s088", include_str!("../models/s088.json"), s088::ROOTS),
    ("s089", include_str!("../models/s089.json"), s089::ROOTS),
    ("s090", include_str!("../models/s090.json"), s090::ROOTS),
    ("s095", include_str!("../models/s095.json"), s095::ROOTS),
    ("s119", include_str!("../models/s119.json"), s119::ROOTS),
];
