pub use parsel;
