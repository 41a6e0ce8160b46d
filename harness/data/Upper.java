public class U { public static void main(String[] a){ for(int i=0;i<65536;i++){ char c=(char)i; char u=Character.toUpperCase(c); if(u!=c) System.out.printf("%x %x%n",i,(int)u);} } }
