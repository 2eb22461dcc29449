fn main() {
    #[cfg(not(kani))]
    nd::replay_main(c32::TABLE);
}
