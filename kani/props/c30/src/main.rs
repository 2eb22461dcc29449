fn main() {
    #[cfg(not(kani))]
    nd::replay_main(c30::TABLE);
}
