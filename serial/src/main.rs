fn main() {
    harness::run(&[serial_checks::trip::P27, serial_checks::bytes::P28])
}
