fn main() {
    #[cfg(not(kani))]
    nd::replay_main(c33::TABLE);
}
