//! laps in one combination of its features
