//! What the simulator needs to know about a generated type, through its generated API.
use std::any::Any;
use std::io::Write;

pub use rust_decimal;
pub use xsd;
pub use xsd::decode::FromXmlError;
pub use xsd::xml::writer::{EmitterConfig, Error as WriteError};

/// A value of some generated type.
pub trait Val: Send + Sync {
    fn xml(&self) -> Result<Vec<u8>, WriteError>;
    /// Streams the document into a sink, the way code inside the annotated module can. None: not built in.
    fn write_to(&self, root: &str, cfg: EmitterConfig, sink: &mut dyn Write) -> Option<Result<(), WriteError>>;
    fn same(&self, other: &dyn Val) -> bool;
    fn dup(&self) -> Box<dyn Val>;
    fn show(&self) -> String;
    fn any(&self) -> &dyn Any;
}

pub type FromXml = fn(&str) -> Result<Box<dyn Val>, FromXmlError>;

/// One generated root type.
pub struct Root {
    pub schema: &'static str,
    pub name: &'static str,
    pub from: FromXml,
}

pub fn writer<'w>(cfg: EmitterConfig, sink: &'w mut dyn Write) -> Result<xsd::xml::writer::EventWriter<&'w mut dyn Write>, WriteError> {
    let mut w = cfg.create_writer(sink);
    w.write(xsd::xml::writer::events::XmlEvent::StartDocument {
        version: xsd::xml::common::XmlVersion::Version10,
        encoding: Some("UTF-8"),
        standalone: None,
    })?;
    Ok(w)
}

/// Inside an annotated module: streaming into a sink.
#[macro_export]
macro_rules! streams {
    ($($t:ident)*) => {
        pub mod sim_streams {
            $(
                #[allow(non_snake_case)]
                pub fn $t(v: &super::$t, root: &str, cfg: $crate::EmitterConfig, sink: &mut dyn ::std::io::Write) -> Result<(), $crate::WriteError> {
                    let mut w = $crate::writer(cfg, sink)?;
                    // the context must live as long as the value
                    fn go<'a>(v: &'a super::$t, root: &'a str, w: &mut ::xsd::xml::writer::EventWriter<&mut dyn ::std::io::Write>) -> Result<(), $crate::WriteError> {
                        v.to_xml_writer(::xsd::Context::new(root), w)
                    }
                    go(v, root, &mut w)
                }
            )*
        }
    };
}

/// Next to an annotated module: its root types. `$stream` is the module made by [`streams!`] or [`no_streams!`].
#[macro_export]
macro_rules! roots {
    ($m:ident, $schema:literal: $($t:ident = $name:literal)*) => {
        $crate::roots!{@vals $m: $($t)*}
        pub mod $m {
            pub static ROOTS: &[$crate::Root] = &[
                $($crate::Root { schema: $schema, name: $name, from: |s| Ok(Box::new(super::schema::$m::$t::from_xml(s)?)) },)*
            ];
        }
    };
    (@vals $m:ident: $($t:ident)*) => {
        $(
            impl $crate::Val for schema::$m::$t {
                fn xml(&self) -> Result<Vec<u8>, $crate::WriteError> {
                    self.to_xml()
                }
                #[cfg(feature = "streams")]
                fn write_to(&self, root: &str, cfg: $crate::EmitterConfig, sink: &mut dyn ::std::io::Write) -> Option<Result<(), $crate::WriteError>> {
                    Some(schema::$m::sim_streams::$t(self, root, cfg, sink))
                }
                #[cfg(not(feature = "streams"))]
                fn write_to(&self, _: &str, _: $crate::EmitterConfig, _: &mut dyn ::std::io::Write) -> Option<Result<(), $crate::WriteError>> {
                    None
                }
                fn same(&self, other: &dyn $crate::Val) -> bool {
                    other.any().downcast_ref::<Self>().is_some_and(|o| self == o)
                }
                fn dup(&self) -> Box<dyn $crate::Val> {
                    Box::new(self.clone())
                }
                fn show(&self) -> String {
                    format!("{self:?}")
                }
                fn any(&self) -> &dyn ::std::any::Any {
                    self
                }
            }
        )*
    };
}
