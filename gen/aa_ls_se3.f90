pure subroutine aa_la_d_ls_duqu_cmat(sigma, theta, cm) &  
bind(C, name = "aa_la_d_ls_duqu_cmat") 
real(C_DOUBLE), intent(in), dimension(4) :: sigma, theta 
real(C_DOUBLE), intent(out), dimension(8, 8) :: cm 
cm(1,1) = 0
cm(1,2) = 0
cm(1,3) = 0
cm(1,4) = 0
cm(1,5) = 0
cm(1,6) = 0
cm(1,7) = 0
cm(1,8) = -sigma(1)**2*(sigma(2)**2*(sigma(3)**2*(sigma(4)**2*(1-&
&theta(4)**2)-theta(3)**2*sigma(4)**2)-theta(2)**2*sigma(3)**2*sig&
&ma(4)**2)-theta(1)**2*sigma(2)**2*sigma(3)**2*sigma(4)**2)
cm(2,1) = 1.0E+0
cm(2,2) = 0
cm(2,3) = 0
cm(2,4) = 0
cm(2,5) = 0
cm(2,6) = 0
cm(2,7) = 0
cm(2,8) = (-sigma(1)**2*(sigma(2)**2*(sigma(3)*sigma(4)**2*(2-2*t&
&heta(4)**2)+theta(2)**2*((-2*sigma(3)*sigma(4)**2)-2*sigma(3)**2*&
&sigma(4))+sigma(3)**2*(2*sigma(4)-2*theta(3)**2*sigma(4)))+sigma(&
&2)*sigma(3)**2*(sigma(4)**2*(2-2*theta(4)**2)-2*theta(3)**2*sigma&
&(4)**2)+theta(1)**2*(sigma(2)**2*((-2*sigma(3)*sigma(4)**2)-2*sig&
&ma(3)**2*sigma(4))-2*sigma(2)*sigma(3)**2*sigma(4)**2)))-sigma(1)&
&*sigma(2)**2*(sigma(3)**2*(sigma(4)**2*(2-2*theta(4)**2)-2*theta(&
&3)**2*sigma(4)**2)-2*theta(2)**2*sigma(3)**2*sigma(4)**2)
cm(3,1) = 0
cm(3,2) = 1.0E+0
cm(3,3) = 0
cm(3,4) = 0
cm(3,5) = 0
cm(3,6) = 0
cm(3,7) = 0
cm(3,8) = (-sigma(1)**2*(sigma(3)**2*(sigma(4)**2*(1-theta(4)**2)&
&-theta(3)**2*sigma(4)**2)+sigma(2)**2*(sigma(4)**2*(1-theta(4)**2&
&)+theta(2)**2*((-sigma(4)**2)-4*sigma(3)*sigma(4)-sigma(3)**2)+4*&
&sigma(3)*sigma(4)+sigma(3)**2*(1-theta(3)**2))+sigma(2)*(sigma(3)&
&*sigma(4)**2*(4-4*theta(4)**2)+sigma(3)**2*(4*sigma(4)-4*theta(3)&
&**2*sigma(4)))+theta(1)**2*(sigma(2)*((-4*sigma(3)*sigma(4)**2)-4&
&*sigma(3)**2*sigma(4))-sigma(3)**2*sigma(4)**2+sigma(2)**2*((-sig&
&ma(4)**2)-4*sigma(3)*sigma(4)-sigma(3)**2))))-sigma(2)**2*(sigma(&
&3)**2*(sigma(4)**2*(1-theta(4)**2)-theta(3)**2*sigma(4)**2)-theta&
&(2)**2*sigma(3)**2*sigma(4)**2)-sigma(1)*(sigma(2)**2*(sigma(3)*s&
&igma(4)**2*(4-4*theta(4)**2)+theta(2)**2*((-4*sigma(3)*sigma(4)**&
&2)-4*sigma(3)**2*sigma(4))+sigma(3)**2*(4*sigma(4)-4*theta(3)**2*&
&sigma(4)))+sigma(2)*sigma(3)**2*(sigma(4)**2*(4-4*theta(4)**2)-4*&
&theta(3)**2*sigma(4)**2))
cm(4,1) = 0
cm(4,2) = 0
cm(4,3) = 1.0E+0
cm(4,4) = 0
cm(4,5) = 0
cm(4,6) = 0
cm(4,7) = 0
cm(4,8) = (-sigma(1)**2*(sigma(3)*sigma(4)**2*(2-2*theta(4)**2)+s&
&igma(2)*(sigma(4)**2*(2-2*theta(4)**2)+8*sigma(3)*sigma(4)+sigma(&
&3)**2*(2-2*theta(3)**2))+theta(1)**2*((-2*sigma(3)*sigma(4)**2)+s&
&igma(2)*((-2*sigma(4)**2)-8*sigma(3)*sigma(4)-2*sigma(3)**2)-2*si&
&gma(3)**2*sigma(4)+sigma(2)**2*((-2*sigma(4))-2*sigma(3)))+sigma(&
&3)**2*(2*sigma(4)-2*theta(3)**2*sigma(4))+sigma(2)**2*(2*sigma(4)&
&+theta(2)**2*((-2*sigma(4))-2*sigma(3))+2*sigma(3))))-sigma(2)**2&
&*(sigma(3)*sigma(4)**2*(2-2*theta(4)**2)+theta(2)**2*((-2*sigma(3&
&)*sigma(4)**2)-2*sigma(3)**2*sigma(4))+sigma(3)**2*(2*sigma(4)-2*&
&theta(3)**2*sigma(4)))-sigma(2)*sigma(3)**2*(sigma(4)**2*(2-2*the&
&ta(4)**2)-2*theta(3)**2*sigma(4)**2)-sigma(1)*(sigma(3)**2*(sigma&
&(4)**2*(2-2*theta(4)**2)-2*theta(3)**2*sigma(4)**2)+sigma(2)**2*(&
&sigma(4)**2*(2-2*theta(4)**2)+theta(2)**2*((-2*sigma(4)**2)-8*sig&
&ma(3)*sigma(4)-2*sigma(3)**2)+8*sigma(3)*sigma(4)+sigma(3)**2*(2-&
&2*theta(3)**2))+sigma(2)*(sigma(3)*sigma(4)**2*(8-8*theta(4)**2)+&
&sigma(3)**2*(8*sigma(4)-8*theta(3)**2*sigma(4))))
cm(5,1) = 0
cm(5,2) = 0
cm(5,3) = 0
cm(5,4) = 1.0E+0
cm(5,5) = 0
cm(5,6) = 0
cm(5,7) = 0
cm(5,8) = (-sigma(3)**2*(sigma(4)**2*(1-theta(4)**2)-theta(3)**2*&
&sigma(4)**2))-sigma(1)**2*(sigma(4)**2*(1-theta(4)**2)+theta(1)**&
&2*((-sigma(4)**2)-4*sigma(3)*sigma(4)+sigma(2)*((-4*sigma(4))-4*s&
&igma(3))-sigma(3)**2-sigma(2)**2)+sigma(2)*(4*sigma(4)+4*sigma(3)&
&)+4*sigma(3)*sigma(4)+sigma(3)**2*(1-theta(3)**2)+sigma(2)**2*(1-&
&theta(2)**2))-sigma(2)**2*(sigma(4)**2*(1-theta(4)**2)+theta(2)**&
&2*((-sigma(4)**2)-4*sigma(3)*sigma(4)-sigma(3)**2)+4*sigma(3)*sig&
&ma(4)+sigma(3)**2*(1-theta(3)**2))-sigma(1)*(sigma(3)*sigma(4)**2&
&*(4-4*theta(4)**2)+sigma(2)*(sigma(4)**2*(4-4*theta(4)**2)+16*sig&
&ma(3)*sigma(4)+sigma(3)**2*(4-4*theta(3)**2))+sigma(3)**2*(4*sigm&
&a(4)-4*theta(3)**2*sigma(4))+sigma(2)**2*(4*sigma(4)+theta(2)**2*&
&((-4*sigma(4))-4*sigma(3))+4*sigma(3)))-sigma(2)*(sigma(3)*sigma(&
&4)**2*(4-4*theta(4)**2)+sigma(3)**2*(4*sigma(4)-4*theta(3)**2*sig&
&ma(4)))
cm(6,1) = 0
cm(6,2) = 0
cm(6,3) = 0
cm(6,4) = 0
cm(6,5) = 1.0E+0
cm(6,6) = 0
cm(6,7) = 0
cm(6,8) = (-sigma(3)*sigma(4)**2*(2-2*theta(4)**2))-sigma(1)*(sig&
&ma(4)**2*(2-2*theta(4)**2)+sigma(2)*(8*sigma(4)+8*sigma(3))+8*sig&
&ma(3)*sigma(4)+sigma(3)**2*(2-2*theta(3)**2)+sigma(2)**2*(2-2*the&
&ta(2)**2))-sigma(2)*(sigma(4)**2*(2-2*theta(4)**2)+8*sigma(3)*sig&
&ma(4)+sigma(3)**2*(2-2*theta(3)**2))-sigma(3)**2*(2*sigma(4)-2*th&
&eta(3)**2*sigma(4))-sigma(1)**2*(2*sigma(4)+theta(1)**2*((-2*sigm&
&a(4))-2*sigma(3)-2*sigma(2))+2*sigma(3)+2*sigma(2))-sigma(2)**2*(&
&2*sigma(4)+theta(2)**2*((-2*sigma(4))-2*sigma(3))+2*sigma(3))
cm(7,1) = 0
cm(7,2) = 0
cm(7,3) = 0
cm(7,4) = 0
cm(7,5) = 0
cm(7,6) = 1.0E+0
cm(7,7) = 0
cm(7,8) = (-sigma(4)**2*(1-theta(4)**2))-sigma(1)*(4*sigma(4)+4*s&
&igma(3)+4*sigma(2))-sigma(2)*(4*sigma(4)+4*sigma(3))-4*sigma(3)*s&
&igma(4)-sigma(3)**2*(1-theta(3)**2)-sigma(2)**2*(1-theta(2)**2)-s&
&igma(1)**2*(1-theta(1)**2)
cm(8,1) = 0
cm(8,2) = 0
cm(8,3) = 0
cm(8,4) = 0
cm(8,5) = 0
cm(8,6) = 0
cm(8,7) = 1.0E+0
cm(8,8) = (-2*sigma(4))-2*sigma(3)-2*sigma(2)-2*sigma(1)
end subroutine aa_la_d_ls_duqu_cmat 
