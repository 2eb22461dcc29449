fn main() {
    #[cfg(not(kani))]
    nd::replay_main(c37::TABLE);
}
