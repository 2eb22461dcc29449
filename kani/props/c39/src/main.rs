fn main() {
    #[cfg(not(kani))]
    nd::replay_main(c39::TABLE);
}
