fn main() {
    #[cfg(not(kani))]
    nd::replay_main(c16::TABLE);
}
