fn main() {
    #[cfg(not(kani))]
    nd::replay_main(c14::TABLE);
}
