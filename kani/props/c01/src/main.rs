fn main() {
    #[cfg(not(kani))]
    nd::replay_main(c01::TABLE);
}
