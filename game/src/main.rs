fn main() {
    harness::run(&[game_checks::circles::P34])
}
