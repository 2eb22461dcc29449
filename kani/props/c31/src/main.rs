fn main() {
    #[cfg(not(kani))]
    nd::replay_main(c31::TABLE);
}
