fn main() {
    #[cfg(not(kani))]
    nd::replay_main(c21::TABLE);
}
