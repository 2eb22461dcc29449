fn main() {
    #[cfg(not(kani))]
    nd::replay_main(c02::TABLE);
}
