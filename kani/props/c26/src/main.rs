fn main() {
    #[cfg(not(kani))]
    nd::replay_main(c26::TABLE);
}
