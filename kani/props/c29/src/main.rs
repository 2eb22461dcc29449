fn main() {
    #[cfg(not(kani))]
    nd::replay_main(c29::TABLE);
}
