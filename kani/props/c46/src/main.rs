fn main() {
    #[cfg(not(kani))]
    nd::replay_main(c46::TABLE);
}
