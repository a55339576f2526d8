-------------------------------- MODULE MCScan --------------------------------
EXTENDS Scan
L == 1048576
AllPlaces == {0, 1, 2, 5, 6, 7, 26, 31, 32, 33, 100, 4058} \cup 4064..4066 \cup 4085..4103 \cup 8185..8199 \cup {12288, 65536, 524288}
             \cup (L - 4102)..(L - 4090) \cup (L - 33)..(L + 7) \cup {L + 4090, L + 4096, L + 5000}
SomePlaces == {0, 1, 6, 32, 4090, 4091, 4095, 4096, 4097, 8192, L - 4096, L - 6, L - 1, L, L + 1}
DecoyFew == {0, 1, 7, 26, 4064, 4084, 4089, 4090, 4091, 4093, 4096, 4102, 8191, L - 4096, L - 12, L - 3, L}
DecoyMany == {0} \cup {p \in AllPlaces : p % 3 # 1 \/ p < 10}
=============================================================================
