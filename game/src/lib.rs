pub mod circles;
