// Parameter words that drive the predictors to their extremes when held (found by a seeded hill climb on the public
// decode functions): loudest and quietest spectra per parameter format (0 = AMBE 2400, 1 = AMBE 2450, 2 = IMBE).
static const char* const loud_a24[] = {
    "1110100000000000000000000010011111011100110000001",
    "1110100000000000000000000010101100111010110000001",
    "1110100000000000000000001010000111011000100000001",
    "1110100000000000000000001011100101001111100000001",
    "1110100000000000000000000011010110001001100000001",
    "1110100000000000000000001011111110010111100000001",
    "1110100000000000000000001010000101001001110000001",
    "1110011111111111111110110011101011001111111111110",
    "1110011111111111111110110011000011001111001011110",
    "1110011111111111111110110011101111101111111111110",
    "1110011111111111111110111011001001101111111011110",
    "1110011111111111111110111010010110001110001111110",
    "1010011111111111111110000010010111001100101111111",
    "1001101111111111111110000011000000111000111111111",
    "1101001111111100011110111010010111001101001111111",
    "1110001111111111111110110010100111101111111111111",
    "1110001111111111111110111010111011001110111111111",
};
static const char* const loud_a25[] = {
    "1100100111111110000110100000010010101100011010111",
    "1100010111111110000110100000001101001100011010001",
    "1100110111111110000110100000011100011100011011001",
    "1100101111111110000110100000010101101100011010001",
    "1011101111110111111011110011010110111101110010111",
    "0101001111110111111011111011110011001111110011000",
    "1000100011110111111011111111010110001010110001000",
    "0101110011110111111011110100110000011101110011000",
    "1100000011111110000110100000000000101100011011000",
    "0011110111110111111011110110110001011010110010000",
    "1110100100000011111001011111010100110110101100011",
    "1110111100000011111001011111000100110111101100111",
    "1110110000000011111001011111111000100110101100111",
    "1110011100000011111001011111110011100110101101011",
    "1110111100000011111001011111100101000111101100011",
    "1110111000000011111001011111110010100111101101111",
    "1110010100000011111001011111101100100110101101011",
};
static const char* const loud_imbe[] = {
    "0100100000000011000001011010010000010110111110010110011100010000010111100000000011000100",
    "0100100000000001000000000111110000000001110011001111101000000000000010000011000000100101",
    "0100110000000010000000011101000000000011000111001110010000000000000000110101001111100110",
    "0100110000000110000010101101000001011100001111100010110010000000101111010010001011110011",
    "0101000000001000111110000000111110000111110011100010010010011111010000011110110001000111",
    "0100110000000010000001100001000000110001101010101000100010000000011100000111101100110000",
    "0101000000000000000000011100000000000100110111001011000110000000000101111011101111010111",
    "0100101111111111111111111010001111111101000100001100100001101111111110001000110011101000",
    "0100111111111101111111100110111111110000011101000000011111111111111000010101010100111110",
    "0100111111111111111111100100111111110001111100010001101101111111111100001000010101101110",
    "0101001111111001111101010011111010100001100101010011111111111110100000001000011001001100",
    "0100101111100011100001011000001000010110000111101110110011111000010010010010101001001010",
    "0110011111111111110001111111111100001110011111111111000001011111111001111000001001101000",
    "1000101111111101011111011011101110011111011010010011100000011100100101100100001011011011",
    "0011111111110001011110000101000011000000101000111010100111101111000100101100000110101101",
    "0110011111010000001101000000101111010101110000010110011011111011111011111111101000111111",
    "0110011111111111101111111110000001110000111111101101101100111000111001111110101101101101",
};
