fn main() {
    #[cfg(not(kani))]
    nd::replay_main(c17::TABLE);
}
