fn main() {
    #[cfg(not(kani))]
    nd::replay_main(c20::TABLE);
}
