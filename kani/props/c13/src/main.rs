fn main() {
    #[cfg(not(kani))]
    nd::replay_main(c13::TABLE);
}
