//! Written by make.py.
#![allow(warnings)]
mod schema {
    #[xsd::all(schema = "schemas/h000/main.xsd")]
    pub mod h000 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Note }
    }
    #[xsd::all(schema = "schemas/s006/main.xsd")]
    pub mod s006 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Zephyr Meadow Willow Yarrow Estuary Quartz Iris Ridge Knoll Basalt Amber Larch Sorrel }
    }
    #[xsd::all(schema = "schemas/s012/main.xsd")]
    pub mod s012 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Xenon Orchid Sorrel Juniper Yarrow Estuary Ridge Pebble Cobalt Birch Larch Tundra Harbor Knoll Umber }
    }
    #[xsd::all(schema = "schemas/s028/main.xsd")]
    pub mod s028 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Ember Harbor Basalt }
    }
    #[xsd::all(schema = "schemas/s031/main.xsd")]
    pub mod s031 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Umber Nimbus Velvet Ridge Meadow Orchid Ember Xenon Larch Quartz Cobalt Cinder }
    }
    #[xsd::all(schema = "schemas/s033/main.xsd")]
    pub mod s033 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Zephyr Ember Birch Cinder Nimbus Harbor Sorrel Xenon Knoll Pebble Orchid Tundra Grove Willow }
    }
    #[xsd::all(schema = "schemas/s038/main.xsd")]
    pub mod s038 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Pebble Cobalt Xenon Amber }
    }
    #[xsd::all(schema = "schemas/s041/main.xsd")]
    pub mod s041 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Sorrel Estuary Larch }
    }
    #[xsd::all(schema = "schemas/s043/main.xsd")]
    pub mod s043 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Knoll Pebble Orchid Meadow Cobalt Xenon Yarrow Grove }
    }
    #[xsd::all(schema = "schemas/s056/main.xsd")]
    pub mod s056 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Harbor Tundra Juniper Meadow }
    }
    #[xsd::all(schema = "schemas/s060/main.xsd")]
    pub mod s060 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Fjord Cobalt Birch Yarrow Cinder Nimbus Larch Estuary Tundra Basalt Willow Zephyr Orchid Iris Grove Umber Harbor Delta Quartz Juniper Pebble Dune }
    }
    #[xsd::all(schema = "schemas/s062/main.xsd")]
    pub mod s062 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Cinder Basalt Larch Ember Iris }
    }
    #[xsd::all(schema = "schemas/s066/main.xsd")]
    pub mod s066 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Iris Meadow Grove Velvet Umber Orchid Willow Pebble Cobalt }
    }
    #[xsd::all(schema = "schemas/s067/main.xsd")]
    pub mod s067 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Meadow Juniper Knoll Orchid Dune Quartz Willow Larch Umber Yarrow Ridge }
    }
    #[xsd::all(schema = "schemas/s078/main.xsd")]
    pub mod s078 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Nimbus Yarrow Ember Fjord }
    }
    #[xsd::all(schema = "schemas/s085/main.xsd")]
    pub mod s085 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Cobalt Ember Estuary }
    }
    #[xsd::all(schema = "schemas/s086/main.xsd")]
    pub mod s086 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Iris Grove Birch Ridge }
    }
    #[xsd::all(schema = "schemas/s094/main.xsd")]
    pub mod s094 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Zephyr Umber Estuary Juniper }
    }
    #[xsd::all(schema = "schemas/s098/main.xsd")]
    pub mod s098 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Umber Nimbus Quartz Willow Yarrow Cobalt Birch Amber }
    }
    #[xsd::all(schema = "schemas/s103/main.xsd")]
    pub mod s103 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Tundra Basalt Juniper Iris Birch }
    }
    #[xsd::all(schema = "schemas/s104/main.xsd")]
    pub mod s104 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Juniper Xenon Nimbus Fjord Harbor }
    }
    #[xsd::all(schema = "schemas/s118/main.xsd")]
    pub mod s118 {
        #[cfg(feature = "streams")]
        ::glue::streams! { Juniper Ridge Basalt Quartz Larch }
    }
}
glue::roots! { h000, "h000": Note = "Note" }
glue::roots! { s006, "s006": Zephyr = "Zephyr" Meadow = "Meadow" Willow = "Willow" Yarrow = "Yarrow" Estuary = "Estuary" Quartz = "Quartz" Iris = "Iris" Ridge = "Ridge" Knoll = "Knoll" Basalt = "Basalt" Amber = "Amber" Larch = "Larch" Sorrel = "Sorrel" }
glue::roots! { s012, "s012": Xenon = "Xenon" Orchid = "Orchid" Sorrel = "Sorrel" Juniper = "Juniper" Yarrow = "Yarrow" Estuary = "Estuary" Ridge = "Ridge" Pebble = "Pebble" Cobalt = "Cobalt" Birch = "Birch" Larch = "Larch" Tundra = "Tundra" Harbor = "Harbor" Knoll = "Knoll" Umber = "Umber" }
glue::roots! { s028, "s028": Ember = "Ember" Harbor = "Harbor" Basalt = "Basalt" }
glue::roots! { s031, "s031": Umber = "Umber" Nimbus = "Nimbus" Velvet = "Velvet" Ridge = "Ridge" Meadow = "Meadow" Orchid = "Orchid" Ember = "Ember" Xenon = "Xenon" Larch = "Larch" Quartz = "Quartz" Cobalt = "Cobalt" Cinder = "Cinder" }
glue::roots! { s033, "s033": Zephyr = "Zephyr" Ember = "Ember" Birch = "Birch" Cinder = "Cinder" Nimbus = "Nimbus" Harbor = "Harbor" Sorrel = "Sorrel" Xenon = "Xenon" Knoll = "Knoll" Pebble = "Pebble" Orchid = "Orchid" Tundra = "Tundra" Grove = "Grove" Willow = "Willow" }
glue::roots! { s038, "s038": Pebble = "Pebble" Cobalt = "Cobalt" Xenon = "Xenon" Amber = "Amber" }
glue::roots! { s041, "s041": Sorrel = "Sorrel" Estuary = "Estuary" Larch = "Larch" }
glue::roots! { s043, "s043": Knoll = "Knoll" Pebble = "Pebble" Orchid = "Orchid" Meadow = "Meadow" Cobalt = "Cobalt" Xenon = "Xenon" Yarrow = "Yarrow" Grove = "Grove" }
glue::roots! { s056, "s056": Harbor = "Harbor" Tundra = "Tundra" Juniper = "Juniper" Meadow = "Meadow" }
glue::roots! { s060, "s060": Fjord = "Fjord" Cobalt = "Cobalt" Birch = "Birch" Yarrow = "Yarrow" Cinder = "Cinder" Nimbus = "Nimbus" Larch = "Larch" Estuary = "Estuary" Tundra = "Tundra" Basalt = "Basalt" Willow = "Willow" Zephyr = "Zephyr" Orchid = "Orchid" Iris = "Iris" Grove = "Grove" Umber = "Umber" Harbor = "Harbor" Delta = "Delta" Quartz = "Quartz" Juniper = "Juniper" Pebble = "Pebble" Dune = "Dune" }
glue::roots! { s062, "s062": Cinder = "Cinder" Basalt = "Basalt" Larch = "Larch" Ember = "Ember" Iris = "Iris" }
glue::roots! { s066, "s066": Iris = "Iris" Meadow = "Meadow" Grove = "Grove" Velvet = "Velvet" Umber = "Umber" Orchid = "Orchid" Willow = "Willow" Pebble = "Pebble" Cobalt = "Cobalt" }
glue::roots! { s067, "s067": Meadow = "Meadow" Juniper = "Juniper" Knoll = "Knoll" Orchid = "Orchid" Dune = "Dune" Quartz = "Quartz" Willow = "Willow" Larch = "Larch" Umber = "Umber" Yarrow = "Yarrow" Ridge = "Ridge" }
glue::roots! { s078, "s078": Nimbus = "Nimbus" Yarrow = "Yarrow" Ember = "Ember" Fjord = "Fjord" }
glue::roots! { s085, "s085": Cobalt = "Cobalt" Ember = "Ember" Estuary = "Estuary" }
glue::roots! { s086, "s086": Iris = "Iris" Grove = "Grove" Birch = "Birch" Ridge = "Ridge" }
glue::roots! { s094, "s094": Zephyr = "Zephyr" Umber = "Umber" Estuary = "Estuary" Juniper = "Juniper" }
glue::roots! { s098, "s098": Umber = "Umber" Nimbus = "Nimbus" Quartz = "Quartz" Willow = "Willow" Yarrow = "Yarrow" Cobalt = "Cobalt" Birch = "Birch" Amber = "Amber" }
glue::roots! { s103, "s103": Tundra = "Tundra" Basalt = "Basalt" Juniper = "Juniper" Iris = "Iris" Birch = "Birch" }
glue::roots! { s104, "s104": Juniper = "Juniper" Xenon = "Xenon" Nimbus = "Nimbus" Fjord = "Fjord" Harbor = "Harbor" }
glue::roots! { s118, "s118": Juniper = "Juniper" Ridge = "Ridge" Basalt = "Basalt" Quartz = "Quartz" Larch = "Larch" }
pub static SCHEMAS: &[(&str, &str, &[glue::Root])] = &[
    ("h000", include_str!("../models/h000.json"), h000::ROOTS),
    ("s006", include_str!("../models/s006.json"), s006::ROOTS),
    ("s012", include_str!("../models/s012.json"), s012::ROOTS),
    ("s028", include_str!("../models/s028.json"), s028::ROOTS),
    ("s031", include_str!("../models/s031.json"), s031::ROOTS),
    ("s033", include_str!("../models/s033.json"), s033::ROOTS),
    ("s038", include_str!("../models/s038.json"), s038::ROOTS),
    ("s041", include_str!("../models/s041.json"), s041::ROOTS),
    ("s043", include_str!("../models/s043.json"), s043::ROOTS),
    ("s056", include_str!("../models/s056.json"), s056::ROOTS),
    ("s060", include_str!("../models/s060.json"), s060::ROOTS),
    ("s062", include_str!("../models/s062.json"), s062::ROOTS),
    ("s066", include_str!("../models/s066.json"), s066::ROOTS),
    ("s067", include_str!("../models/s067.json"), s067::ROOTS),
    ("s078", include_str!("../models/s078.json"), s078::ROOTS),
    ("s085", include_str!("../models/s085.json"), s085::ROOTS),
    ("s086", include_str!("../models/s086.json"), s086::ROOTS),
    ("s094", include_str!("../models/s094.json"), s094::ROOTS),
    ("s098", include_str!("../models/s098.json"), s098::ROOTS),
    ("s103", include_str!("../models/s103.json"), s103::ROOTS),
    ("s104", include_str!("../models/s104.json"), s104::ROOTS),
    ("s118", include_str!("../models/s118.json"), s118::ROOTS),
];
