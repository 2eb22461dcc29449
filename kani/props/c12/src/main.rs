fn main() {
    #[cfg(not(kani))]
    nd::replay_main(c12::TABLE);
}
