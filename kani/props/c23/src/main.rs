fn main() {
    #[cfg(not(kani))]
    nd::replay_main(c23::TABLE);
}
