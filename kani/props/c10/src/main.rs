fn main() {
    #[cfg(not(kani))]
    nd::replay_main(c10::TABLE);
}
