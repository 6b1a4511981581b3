/*
 * Extern blocks.
 */

extern "C" {

int main(void);

}

extern "C" {
}
