//! Bounded model checking of `typical`: a boring reference model of the schema language, the wire
//! format and the tool, and explorers which enumerate bounded spaces of schemas, values, messages,
//! environments and faults and compare the real tool and the code it generates with the model.
pub mod client;
pub mod codec;
pub mod cost;
pub mod engine;
pub mod explore;
pub mod history;
pub mod lang;
pub mod messages;
pub mod model;
pub mod names;
pub mod util;
pub mod values;
pub mod plain;
