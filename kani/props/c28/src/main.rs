fn main() {
    #[cfg(not(kani))]
    nd::replay_main(c28::TABLE);
}
