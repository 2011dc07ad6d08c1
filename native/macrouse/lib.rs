pub use json_typegen::json_typegen;
