package main

const rsaP1 = "c1e80d46317ff02ac7880208cdfc015092113c1511d3deb51da7cc2022aa39be17f05818eddd5ee79bc70333a419ce1fbefaf92521a0cfb03591309271c060d7"
const rsaQ1 = "eb65d04b40a3e5ea58a16838164499d3a04bcb633f14678780482316bc5f555ffb052223c4a21e7dee18519878f0c7e7b368fd3765c3351e586d9b947d0ada1f"
const rsaP2 = "f4f8525095a9f5f28f068d858c743886dfb91994e836f4ec2778e1e2d489d284771381130401d69eb88bb6268b877d2f83a87cf12a159ab6fc8af862150f943f"
const rsaQ2 = "c8113c4ffcd05009bb486db67718fb079e4907cca7634b0e1dfd4b0743ddd789acb6234afe36452852dac0df31fcdb72b032ed28d778a76115ab076bffe52337"
